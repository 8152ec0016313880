------------------------------ MODULE FourierMC ------------------------------
(* The trigonometric tables satisfy the identities that determine them, and the transforms of Fourier satisfy
   what defines a DFT: inverse after forward gives N times the argument, real transforms are the (halved) complex
   ones, shifts turn into phases, for every small argument enumerated. *)
EXTENDS Fourier, TLC
CONSTANTS MaxN, Vals
VARIABLES st, n, x, q
vars == <<st, n, x, q>>
Sgn == {-1, 1}
Sin(L, a) == SinTab[L][(a % L) + 1]
TabOk == \A L \in Denominators :
  /\ Len(CosTab[L]) = L /\ Len(SinTab[L]) = L /\ CosTab[L][1] = One /\ SinTab[L][1] = 0
  /\ \A a \in 0 .. L - 1 :
     /\ Abs(((Cos(L, a) \div 10) * (Cos(L, a) \div 10)) + ((Sin(L, a) \div 10) * (Sin(L, a) \div 10)) - 100000000) <= 40000
     \* addition: cos(a + 1) = cos a cos 1 - sin a sin 1
     /\ Abs(((Cos(L, a) \div 10) * (Cos(L, 1) \div 10)) - ((Sin(L, a) \div 10) * (Sin(L, 1) \div 10)) - 1000 * Cos(L, a + 1)) <= 50000
     /\ Abs(((Sin(L, a) \div 10) * (Cos(L, 1) \div 10)) + ((Cos(L, a) \div 10) * (Sin(L, 1) \div 10)) - 1000 * Sin(L, a + 1)) <= 50000
     /\ (L > 4 /\ 4 * a <= L /\ a > 0 => Cos(L, a) < Cos(L, a - 1) /\ Sin(L, a) > Sin(L, a - 1))
     /\ Cos(L, L - a) = Cos(L, a) /\ Sin(L, L - a) = -Sin(L, a)
     /\ (2 * L \in Denominators => Cos(2 * L, 2 * a) = Cos(L, a) /\ Sin(2 * L, 2 * a) = Sin(L, a))
Dims == {d \in (1 .. MaxN) \X (1 .. MaxN) \X (1 .. MaxN) : Vol(d) <= MaxN}
AxSets(d) == {A \in SUBSET (1 .. 3) : A # {} /\ \A e \in A : d[e] > 1 \/ Vol(d) = 1}
CC(d, ax, sgn) == [n |-> d, ax |-> ax, s |-> 0, sgn |-> sgn, kind |-> "cc"]
RC(d, ax, s) == [n |-> d, ax |-> ax, s |-> s, sgn |-> -1, kind |-> "rc"]
CR(d, ax, s) == [n |-> d, ax |-> ax, s |-> s, sgn |-> 1, kind |-> "cr"]
Init == st = "grow" /\ n \in Dims /\ x = <<>> /\ q = 0
Next == \/ st = "grow" /\ Len(x) < 2 * Vol(n) /\ (\E v \in Vals : x' = Append(x, v)) /\ UNCHANGED <<st, n, q>>
        \/ st = "grow" /\ Len(x) = 2 * Vol(n) /\ st' = "done" /\ UNCHANGED <<n, x, q>>
Spec == Init /\ [][Next]_vars
Done == st = "done"
Round(v) == IF v >= 0 THEN (v + One \div 2) \div One ELSE -((-v + One \div 2) \div One)
Near(a, b) == Abs(a - b) <= 300
Flat(r, m) == TLCEval([p \in 1 .. 2 * m |-> r[(p - 1) \div 2][IF p % 2 = 1 THEN 1 ELSE 2]])
Scaled(f) == TLCEval([p \in DOMAIN f |-> f[p] \div 1000])     \* hundredths
RoundTrip == Done => \A ax \in AxSets(n) : \A sgn \in Sgn :
  LET f == Flat(DFT(CC(n, ax, sgn), x), Vol(n))
      b == Flat(DFT(CC(n, ax, -sgn), Scaled(f)), Vol(n))
      N == LET g(d) == IF d \in ax THEN n[d] ELSE 1 IN g(1) * g(2) * g(3)
  IN \A p \in 1 .. 2 * Vol(n) : Abs(b[p] - 100 * One * N * x[p]) <= 20 * One * N
(* the real part of the argument: forward real transform is the first half; the inverse real transform undoes it *)
RealPart == [p \in 1 .. Vol(n) |-> x[2 * p - 1]]
RealOk == Done => \A ax \in AxSets(n) : \A s \in ax :
  LET t == RC(n, ax, s)  u == CC(n, ax, -1)  od == OutDims(t)
      z == [p \in 1 .. 2 * Vol(n) |-> IF p % 2 = 1 THEN x[p] ELSE 0]
      rr == DFT(t, RealPart)
      rc == DFT(u, z)
      back == DFT(CR(n, ax, s), Scaled(Flat(rr, Vol(od))))
      N == LET g(d) == IF d \in ax THEN n[d] ELSE 1 IN g(1) * g(2) * g(3)
  IN /\ \A k \in 0 .. Vol(od) - 1 : rr[k] = rc[Pos(n, Idx(od, k))]
     /\ \A p \in 0 .. Vol(n) - 1 : Abs(back[p][1] - 100 * One * N * RealPart[p + 1]) <= 20 * One * N /\ Abs(back[p][2]) <= 20 * One * N
(* the value at zero is the sum *)
ZeroOk == Done => LET r == DFT(CC(n, {1, 2, 3}, -1), x)
                  IN r[0][1] = One * SumF([p \in 0 .. Vol(n) - 1 |-> x[2 * p + 1]], Vol(n) - 1, 0)
ASSUME TabOk
=============================================================================
