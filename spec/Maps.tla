------------------------------- MODULE Maps --------------------------------
(* Data distributions.  A dimension of extent e is dealt to n subblocks: in contiguous blocks
   whose sizes differ by at most one, larger first (block); in chunks of c indices dealt round
   robin (cyclic); or all to one (whole).  A map is the product of one distribution per
   dimension; subblock numbers are row-major in the per-dimension subblock numbers, and subblock
   k is held by processor pset[k+1] (a replicated map: one subblock, held by every processor of
   the set).                                                                                 *)
EXTENDS Arrays, TLC

\* distribution record: [k |-> "block"|"cyclic"|"whole", n |-> subblocks, c |-> contiguity]
Quota(e, n, sb) == (e \div n) + (IF sb < e % n THEN 1 ELSE 0)
BlockStart(e, n, sb) == sb * (e \div n) + Min2(sb, e % n)
\* owner and local position of index i
DOwner(d, e, i) ==
  CASE d.k = "whole" -> 0
    [] d.k = "block" -> CHOOSE sb \in 0..(d.n - 1) : BlockStart(e, d.n, sb) <= i /\ i < BlockStart(e, d.n, sb) + Quota(e, d.n, sb)
    [] d.k = "cyclic" -> (i \div d.c) % d.n
DPatch(d, e, i) == IF d.k = "cyclic" THEN (i \div d.c) \div d.n ELSE 0
DHas(d, e, sb) == {i \in 0..(e - 1) : DOwner(d, e, i) = sb}
\* local positions follow the global order within a subblock
DLocal(d, e, i) == Cardinality({j \in DHas(d, e, DOwner(d, e, i)) : j < i})
DSize(d, e, sb) == Cardinality(DHas(d, e, sb))
DPatches(d, e, sb) == IF d.k = "cyclic" THEN Cardinality({DPatch(d, e, i) : i \in DHas(d, e, sb)}) ELSE 1
DPatchSet(d, e, sb, p) == {i \in DHas(d, e, sb) : DPatch(d, e, i) = p}

\* maps: [dist |-> <<...>>, pset |-> <<...>>, repl |-> BOOLEAN]
NSub(m) == Prod([x \in 1..Len(m.dist) |-> m.dist[x].n])
Counts(m) == [x \in 1..Len(m.dist) |-> m.dist[x].n]
SubOf(m, sb) == Idx(Counts(m), sb)                      \* per-dimension subblock numbers
Owner(m, ext, i) == Pos(Counts(m), [x \in 1..Len(ext) |-> DOwner(m.dist[x], ext[x], i[x])])
Local(m, ext, i) == [x \in 1..Len(ext) |-> DLocal(m.dist[x], ext[x], i[x])]
SubExt(m, ext, sb) == [x \in 1..Len(ext) |-> DSize(m.dist[x], ext[x], SubOf(m, sb)[x])]
PatchCounts(m, ext, sb) == [x \in 1..Len(ext) |-> DPatches(m.dist[x], ext[x], SubOf(m, sb)[x])]
NPatches(m, ext, sb) == Prod(PatchCounts(m, ext, sb))
PatchOf(m, ext, i) == Pos(PatchCounts(m, ext, Owner(m, ext, i)), [x \in 1..Len(ext) |-> DPatch(m.dist[x], ext[x], i[x])])
\* the indices of patch p of subblock sb, per dimension
PatchDim(m, ext, sb, p, x) == DPatchSet(m.dist[x], ext[x], SubOf(m, sb)[x], Idx(PatchCounts(m, ext, sb), p)[x])
Holders(m, sb) == IF m.repl THEN m.pset ELSE <<m.pset[sb + 1]>>
SubHeldBy(m, pr) ==  \* -1: none
  IF m.repl THEN (IF \E k \in 1..Len(m.pset) : m.pset[k] = pr THEN 0 ELSE -1)
  ELSE IF \E k \in 1..NSub(m) : m.pset[k] = pr
       THEN (CHOOSE k \in 1..NSub(m) : m.pset[k] = pr /\ \A j \in 1..(k - 1) : m.pset[j] # pr) - 1 ELSE -1
\* maps by the names of their distributions (R1..R3: replicated)
Kinds == [B |-> <<"block">>, C |-> <<"cyclic">>, W |-> <<"whole">>, R1 |-> <<"whole">>,
          BB |-> <<"block", "block">>, BC |-> <<"block", "cyclic">>, BW |-> <<"block", "whole">>,
          CB |-> <<"cyclic", "block">>, CC |-> <<"cyclic", "cyclic">>, CW |-> <<"cyclic", "whole">>,
          WB |-> <<"whole", "block">>, WC |-> <<"whole", "cyclic">>, WW |-> <<"whole", "whole">>, R2 |-> <<"whole", "whole">>,
          BBB |-> <<"block", "block", "block">>, CCC |-> <<"cyclic", "cyclic", "cyclic">>, BWC |-> <<"block", "whole", "cyclic">>,
          WCB |-> <<"whole", "cyclic", "block">>, CBW |-> <<"cyclic", "block", "whole">>, BCB |-> <<"block", "cyclic", "block">>,
          CWC |-> <<"cyclic", "whole", "cyclic">>, R3 |-> <<"whole", "whole", "whole">>,
          L1 |-> <<"whole">>, L2 |-> <<"whole", "whole">>, L3 |-> <<"whole", "whole", "whole">>]
MkMap(kind, n, c, p) ==
  LET ks == Kinds[kind]
      dist == [x \in 1..Len(ks) |-> [k |-> ks[x], n |-> IF ks[x] = "whole" THEN 1 ELSE n[x], c |-> IF ks[x] = "cyclic" THEN c[x] ELSE 0]]
      r == kind \in {"R1", "R2", "R3", "L1", "L2", "L3"}   \* L: a local array on every processor
      ns == Prod([x \in 1..Len(dist) |-> dist[x].n])
  IN [dist |-> dist, pset |-> IF r THEN p ELSE SubSeq(p, 1, ns), repl |-> r]
\* same placement of every index of the extent
SamePlace(m1, m2, ext) ==
  /\ m1.repl = m2.repl
  /\ IF m1.repl THEN m1.pset = m2.pset
     ELSE \A q \in 0..(Prod(ext) - 1) :
            LET i == Idx(ext, q)
            IN m1.pset[Owner(m1, ext, i) + 1] = m2.pset[Owner(m2, ext, i) + 1] /\ Local(m1, ext, i) = Local(m2, ext, i)
=============================================================================
