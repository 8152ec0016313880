----------------------------- MODULE DomainsMC -----------------------------
(* Small-scope check of the domain algebra: the closed forms (equality by end points, aligned
   intersection) are equivalent to the set semantics, images and subsets select the same
   indices, and the odometer successor visits each index once in order.                      *)
EXTENDS Domains, Json
CONSTANTS MaxFirst, MaxStride, MaxLen, MaxExt, Gen
VARIABLE hist
D1 == {d \in [f : 0..MaxFirst, s : (-MaxStride)..MaxStride, n : 0..MaxLen] : d.s # 0 /\ ValidDom(<<d>>)}
Unit == {d \in D1 : d.s = 1}
Orders == {<<0>>, <<0, 1>>, <<1, 0>>, <<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>>}
NoTrav == [ext |-> <<0>>, ord |-> <<0>>, cur |-> <<0>>, seen |-> {}]
Reg0 == [r \in 0..3 |-> <<[f |-> 0, s |-> 1, n |-> 1]>>]
Init == reg = Reg0 /\ trav = NoTrav /\ hist = <<>>

\* the library's closed forms
Final(d) == d.f + (d.n - 1) * d.s
EqualAlg(a, b) == IF a.n <= 1 THEN a.n = b.n /\ (a.n = 0 \/ a.f = b.f)
                  ELSE a.n = b.n /\ ((a.s = b.s /\ a.f = b.f) \/ (a.s = -b.s /\ a.f = b.f + (b.n - 1) * b.s))
IntersectAlg(a, b) ==
   IF a.n = 0 \/ b.n = 0 THEN <<>>
   ELSE LET up == IF b.f < a.f THEN b.f + ((a.f - b.f + b.s - 1) \div b.s) * b.s ELSE b.f
            lo == Max2(a.f, up)
            hi == Min2(Final(a), Final(b))
        IN IF lo <= hi THEN <<[f |-> lo, s |-> b.s, n |-> ((hi - lo) \div b.s) + 1]>> ELSE <<>>
ApplyAlg(x, y, z) == [f |-> x.f + (z.f - y.f) * x.s, s |-> x.s * z.s, n |-> z.n]
Odometer(t) == \* as ovxx::next
   LET n == Len(t.ext)
       at(i, k) == i[t.ord[k] + 1]
       RECURSIVE go(_, _)
       go(i, k) == LET j == [i EXCEPT ![t.ord[k] + 1] = @ + 1]
                   IN IF j[t.ord[k] + 1] = t.ext[t.ord[k] + 1] /\ k > 1
                      THEN LET h == go(j, k - 1)
                           IN IF h[t.ord[1] + 1] = t.ext[t.ord[1] + 1] THEN h ELSE [h EXCEPT ![t.ord[k] + 1] = 0]
                      ELSE j
   IN go(t.cur, n)

A1 == reg[1][1]
B1 == reg[2][1]
EqualIsSetEqual == (EqualAlg(A1, B1)) = SameSet(reg[1], reg[2])
IntersectIsCommon == A1.s = 1 /\ B1.s > 0 =>
   LET z == IntersectAlg(A1, B1)
   IN  IF z = <<>> THEN Common(A1, B1) = <<>> ELSE Family(z[1]) = Common(A1, B1)
ImageIsApply == A1.s = 1 /\ B1.s > 0 /\ IntersectAlg(A1, B1) # <<>> =>
   \A x \in D1 : LET z == IntersectAlg(A1, B1)[1]
                 IN x.n = A1.n => Family(ApplyAlg(x, A1, z)) = Image(x, A1, z)
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
Idle == trav = NoTrav
MkPair == /\ Idle /\ hist = <<>> /\ reg = Reg0
          /\ \E a \in D1, b \in D1 :
               /\ (Gen => b.s > 0 \/ a.s < 0) = TRUE
               /\ reg' = (1 :> <<a>>) @@ (2 :> <<b>>) @@ reg
               /\ H(<<a.f, a.s, a.n, b.f, b.s, b.n>>)
               /\ (Gen => PrintT(<<"HIST", ToJson(<<a.f, a.s, a.n, b.f, b.s, b.n>>)>>)) = TRUE
          /\ UNCHANGED trav
DoShift == ~Gen /\ Idle /\ \E k \in -2..2 : Shift(1, 1, k) /\ reg'[1][1].f \in 0..MaxFirst /\ UNCHANGED hist
DoScale == ~Gen /\ Idle /\ \E k \in 1..2 : Scale(1, 1, k) /\ Abs(reg'[1][1].s) <= MaxStride /\ UNCHANGED hist
DoUnscale == ~Gen /\ Idle /\ reg # Reg0 /\ \E k \in 1..2 : Unscale(1, 1, k) /\ UNCHANGED hist
DoIntersect == /\ ~Gen /\ Idle
               /\ A1.s = 1 /\ B1.s > 0
               /\ LET z == IntersectAlg(A1, B1)
                  IN  Intersect(1, 2, 3, z # <<>>, IF z = <<>> THEN reg[3] ELSE z)
               /\ UNCHANGED hist
Begin == /\ ~Gen /\ Idle /\ reg = Reg0
         /\ \E o \in Orders : \E e \in [1..Len(o) -> 0..MaxExt] : BeginTrav(e, o) /\ UNCHANGED hist
Advance == ~Gen /\ ~Idle /\ Ahead(trav) /\ Step(Odometer(trav)) /\ UNCHANGED hist
Next == MkPair \/ DoShift \/ DoScale \/ DoUnscale \/ DoIntersect \/ Begin \/ Advance
Spec == Init /\ [][Next]_<<domvars, hist>> /\ WF_<<domvars, hist>>(Advance)
\* the traversal never gets stuck before the end
AdvanceEnabled == (~Idle /\ Ahead(trav)) => ENABLED Advance
=============================================================================
