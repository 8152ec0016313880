--------------------------------- MODULE DdaMC ---------------------------------
(* Every history of one block under successive data-access objects. Ghosts: shadow - what the block must hold by the
   contract alone, told from the program: the last store that the contract makes visible. *)
EXTENDS Dda, TLC
CONSTANTS N, Vals, Steps
VARIABLES s, n, opened, want, stored
vars == <<s, n, opened, want, stored>>
Blocks == [1..N -> Vals]
Init == s \in {Closed(b) : b \in Blocks} /\ n = 0 /\ opened = <<>> /\ want = s.blk /\ stored = {}
Step == n < Steps /\ n' = n + 1
Open == /\ Step /\ ~s.open
        /\ \E pol \in Pols, dir \in BOOLEAN : OpenOk(pol, dir) /\ s' = Opened(s, pol, dir)
        /\ opened' = s.blk /\ want' = s.blk /\ stored' = {}
Write == /\ Step /\ MayWrite(s)
         /\ \E i \in 1..N, x \in Vals :
               /\ s' = BufWrite(s, <<i>>, <<x>>)
               /\ want' = (IF "out" \in s.pol THEN [want EXCEPT ![i] = x] ELSE want)
               /\ stored' = stored \cup {i}
         /\ UNCHANGED opened
In == Step /\ s.open /\ stored = {} /\ s' = SyncIn(s) /\ UNCHANGED <<opened, want, stored>>
Out == /\ Step /\ s.open
       /\ \E b \in Blocks : SyncOutOk(s, b) /\ s' = SyncOut(s, b)
       /\ want' = IF "in" \in s.pol \/ s.dir THEN want ELSE s'.blk
       /\ UNCHANGED <<opened, stored>>
Close == /\ Step /\ s.open
         /\ \E b \in Blocks : SyncOutOk(s, b) /\ s' = Closed(b)
         /\ UNCHANGED <<opened, want, stored>>
Direct == Step /\ ~s.open /\ \E i \in 1..N, x \in Vals : s' = BlkWrite(s, <<i>>, <<x>>) /\ want' = s'.blk /\ UNCHANGED <<opened, stored>>
Next == Open \/ Write \/ In \/ Out \/ Close \/ Direct
Spec == Init /\ [][Next]_vars
\* read-only access never modifies the block
ReadOnly == (s.open /\ "out" \notin s.pol) => s.blk = opened
\* direct access is the block itself
Alias == s.dir => s.buf = s.blk /\ s.unk = {}
\* with input synchronisation nothing is unspecified
Filled == (s.open /\ "in" \in s.pol) => s.unk = {}
\* once closed, everything stored with output synchronisation is in the block, and with "in" also the rest is unchanged
Visible == ~s.open => \A i \in 1..N : (i \in stored \/ s.blk = want) => s.blk[i] = want[i]
InoutExact == [][(Close /\ ("in" \in s.pol \/ s.dir)) => s'.blk = want]_vars
================================================================================
