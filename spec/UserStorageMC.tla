-------------------------- MODULE UserStorageMC ----------------------------
(* Exhaustive small-scope exploration of UserStorage, and generation of     *)
(* operation histories (variable hist) for replay into the code.            *)
EXTENDS UserStorage, Json, IOUtils
CONSTANTS MaxLen, Gen
VARIABLE hist
allvars == <<usvars, hist>>

N == 2  \* elements
Vals == {1}
Arr(x) == [k \in 1..(N + 2*Guard) |-> IF k <= Guard \/ k > N + Guard THEN 0 ELSE x]
B(id) == [dims |-> <<N>>, strides |-> <<1>>, nc |-> 1, total |-> N, fmt |-> "array", ids |-> <<id>>, adm |-> FALSE]

Init == /\ blk = B(1) /\ mem = <<Arr(3), Arr(4)>> /\ val = [s \in 1..N |-> Undef] /\ shad = mem
        /\ hist = <<>>

\* Library touches modelled both ways: write-through (shared memory) or only at release.
WThrough(v) == [k \in 1..N |-> <<Cell(blk, k)[1], Cell(blk, k)[2], v[k]>>]
Chg(v) == {<<>>} \cup (IF HasUser(blk) THEN {WThrough(v)} ELSE {})
H(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist

Known(v) == [s \in 1..N |-> IF v[s] = Undef THEN 9 ELSE v[s]]
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E u \in BOOLEAN : Admit(u, <<>>) /\ H(<<"admit", IF u THEN 1 ELSE 0>>)
     \/ \E u \in BOOLEAN : \E ch \in (IF blk.adm THEN Chg(Known(val)) ELSE {<<>>}) :
           Release(u, ch, FALSE) /\ H(<<"release", IF u THEN 1 ELSE 0>>)
     \/ \E p \in 0..N-1, v \in Vals : \E ch \in {<<>>, <<<<Cell(blk, p+1)[1], Cell(blk, p+1)[2], v>>>>} :
           Put(p, <<v>>, ch) /\ H(<<"put", p, v>>)
     \/ \E ch \in Chg([s \in 1..N |-> 5]) : AssignAll([s \in 1..N |-> 5], ch) /\ H(<<"fill", 5>>)
     \/ blk.adm /\ Read(Known(val), <<>>) /\ H(<<"read">>)
     \/ \E id \in 1..2 : \E v \in {7} :
           UserWrite(id, Guard + 1, v, <<<<id, Guard + 1, v>>>>) /\ H(<<"uwrite", id, 0, v>>)
     \/ \E id \in 1..2 : Rebind(B(id), <<>>) /\ H(<<"rebind", id>>)
     \/ Find(blk.ids, <<>>) /\ H(<<"find">>)
Spec == Init /\ [][Next]_allvars

\* what the user relies on, as action properties of the design
UpdateVisible ==  \* release with update publishes every known element
  [][(blk.adm /\ ~blk'.adm /\ HasUser(blk)) =>
       \A s \in 1..Len(val) : (val[s] # Undef) =>
          mem'[Cell(blk, s)[1]][Cell(blk, s)[2]] \in
             {val[s], shad[Cell(blk, s)[1]][Cell(blk, s)[2]]}]_allvars
GuardsKept == \A id \in 1..Len(mem) : \A k \in 1..Guard : mem[id][k] = 0 /\ mem[id][Guard + N + k] = 0
\* history export (Gen = TRUE): every maximal history is printed once
HistView == hist
Emit == (Gen /\ Len(hist) = MaxLen) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
