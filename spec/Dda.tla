---------------------------------- MODULE Dda ----------------------------------
(* Direct data access. A data-access object gives a raw buffer for a block: either the block's own storage (direct,
   cost 0) or a copy (cost > 0, private or supplied by the user). Policies: "in" fills the copy from the block when the
   object is created or sync_in is called; "out" stores the copy into the block when sync_out is called or the object
   dies; "copy" forbids direct access. Contents are flat sequences of numbers. *)
EXTENDS Integers, Sequences, FiniteSets
Pols == {{"in"}, {"out"}, {"in", "out"}, {"in", "copy"}, {"out", "copy"}, {"in", "out", "copy"}}
\* One abstract state: [blk, buf, unk (buffer positions with unspecified content), pol, dir, open]
Closed(blk) == [blk |-> blk, buf |-> <<>>, unk |-> {}, pol |-> {}, dir |-> FALSE, open |-> FALSE]
OpenOk(pol, dir) == pol \in Pols /\ ~(dir /\ "copy" \in pol)
Opened(s, pol, dir) == [blk |-> s.blk, buf |-> s.blk, unk |-> IF dir \/ "in" \in pol THEN {} ELSE DOMAIN s.blk,
                        pol |-> pol, dir |-> dir, open |-> TRUE]
Put(f, ks, xs) == [i \in DOMAIN f |-> IF \E j \in DOMAIN ks : ks[j] = i THEN xs[CHOOSE j \in DOMAIN ks : ks[j] = i] ELSE f[i]]
Rng(q) == {q[i] : i \in DOMAIN q}
\* the user stores through the pointer; only possible when the policy gives write access to what the pointer shows
MayWrite(s) == s.open /\ ("out" \in s.pol \/ "copy" \in s.pol)
BufWrite(s, ks, xs) == [s EXCEPT !.buf = Put(s.buf, ks, xs), !.unk = s.unk \ Rng(ks), !.blk = IF s.dir THEN Put(s.blk, ks, xs) ELSE s.blk]
\* the user stores through the block while the object is alive
BlkWrite(s, ks, xs) == [s EXCEPT !.blk = Put(s.blk, ks, xs), !.buf = IF s.dir THEN Put(s.buf, ks, xs) ELSE s.buf]
SyncIn(s) == IF ~s.dir /\ "in" \in s.pol THEN [s EXCEPT !.buf = s.blk, !.unk = {}] ELSE s
\* the successors of an output synchronisation: positions never stored to are unspecified, so the new block is given
SyncOutOk(s, nblk) == /\ DOMAIN nblk = DOMAIN s.blk
                      /\ (IF ~s.dir /\ "out" \in s.pol THEN \A i \in DOMAIN nblk \ s.unk : nblk[i] = s.buf[i] ELSE nblk = s.blk)
SyncOut(s, nblk) == [s EXCEPT !.blk = nblk]
\* what the pointer must show
Shows(s, seen) == DOMAIN seen = DOMAIN s.buf /\ \A i \in DOMAIN seen \ s.unk : seen[i] = s.buf[i]

(* Layouts: dims, strides (in elements of the raw buffer's scalar unit esz bytes), pk in {"any","unit","dense"} or an
   alignment in bytes (as al > 0), ord the dimension order from major to minor. *)
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) + Dot(Tail(a), Tail(b))
RECURSIVE Ixs(_)
Ixs(d) == IF d = <<>> THEN {<<>>} ELSE {<<i>> \o r : i \in 0..(Head(d) - 1), r \in Ixs(Tail(d))}
\* different elements at different addresses: enough to look at difference vectors
Diffs(d) == IF Len(d) = 1 THEN {<<i>> : i \in 1..(d[1] - 1)}
            ELSE {[k \in DOMAIN d |-> p[k] - d[k] + 1] : p \in Ixs([k \in DOMAIN d |-> 2 * d[k] - 1])} \ {[k \in DOMAIN d |-> 0]}
Distinct(d, st) == \A v \in Diffs(d) : Dot(v, st) # 0
RECURSIVE Below(_, _, _)
Below(d, ord, i) == IF i = Len(d) THEN 1 ELSE d[ord[i + 1]] * Below(d, ord, i + 1)
Minor(d, ord, st) == LET m == ord[Len(d)] IN st[m] = 1 \/ d[m] = 1
LayoutOk(pk, al, ord, d, st, esz) ==
  /\ Distinct(d, st)
  /\ (CASE pk = "any" -> TRUE
        [] pk = "unit" -> Minor(d, ord, st)
        [] pk = "dense" -> \A i \in 1..Len(d) : (d[ord[i]] = 1 \/ st[ord[i]] = Below(d, ord, i))
        [] OTHER -> Minor(d, ord, st) /\ \A i \in 1..(Len(d) - 1) : (d[ord[i]] = 1 \/ (st[ord[i]] * esz) % al = 0)) = TRUE
================================================================================
