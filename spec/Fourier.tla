------------------------------- MODULE Fourier -------------------------------
(* The scaled discrete Fourier transforms, in fixed-point arithmetic: a transform t is
     n    <<n1, n2, n3>>, the extent in "time" (the real extent for real transforms)
     ax   the set of transformed axes (1..3)
     s    the special axis of a real transform (the halved one), 0 for a complex one
     sgn  -1 forward, 1 inverse;  kind "cc", "rc" or "cr"
   Data are flat row-major sequences, complex values as two consecutive integers. Results are
   multiplied by One. *)
EXTENDS TrigTab, FiniteSets, TLC
One == 100000
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a * b) \div Gcd(a, b)
Cos(L, a) == CosTab[L][(a % L) + 1]
Half(n) == (n \div 2) + 1
InDims(t) == [d \in 1 .. 3 |-> IF t.kind = "cr" /\ d = t.s THEN Half(t.n[d]) ELSE t.n[d]]
OutDims(t) == [d \in 1 .. 3 |-> IF t.kind = "rc" /\ d = t.s THEN Half(t.n[d]) ELSE t.n[d]]
Vol(d) == d[1] * d[2] * d[3]
Idx(d, p) == <<p \div (d[2] * d[3]), (p \div d[3]) % d[2], p % d[3]>>
Pos(d, i) == (i[1] * d[2] + i[2]) * d[3] + i[3]
Den(t) == LET f(d) == IF d \in t.ax THEN t.n[d] ELSE 1 IN Lcm(f(1), Lcm(f(2), f(3)))
(* element i (an index triple in the full extent) of the argument: <<re, im>> *)
Arg(t, x, i) ==
  CASE t.kind = "rc" -> <<x[Pos(t.n, i) + 1], 0>>
    [] t.kind = "cc" -> LET p == 2 * Pos(t.n, i) IN <<x[p + 1], x[p + 2]>>
    [] t.kind = "cr" ->
       LET d == InDims(t)
           conj == i[t.s] >= d[t.s]
           j == IF conj THEN [e \in 1 .. 3 |-> IF e \in t.ax THEN (t.n[e] - i[e]) % t.n[e] ELSE i[e]] ELSE i
           p == 2 * Pos(d, j)
       IN <<x[p + 1], IF conj THEN -x[p + 2] ELSE x[p + 2]>>
(* the whole argument in full extent, as two flat sequences *)
Full(t, x) == LET v == TLCEval([p \in 0 .. Vol(t.n) - 1 |-> Arg(t, x, Idx(t.n, p))])
              IN [re |-> TLCEval([p \in DOMAIN v |-> v[p][1]]), im |-> TLCEval([p \in DOMAIN v |-> v[p][2]])]
(* Positions that agree with index k off the transformed axes *)
Ran(t, k, d) == IF d \in t.ax THEN 0 .. t.n[d] - 1 ELSE {k[d]}
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumF(_, _, _)
SumF(f, p, acc) == IF p < 0 THEN acc ELSE SumF(f, p - 1, acc + f[p])
(* One output value: <<re, im>> * One at index k *)
Coef(t, c, sn, w, k) ==
  LET N == Vol(t.n)
      L == Den(t)
      A(p) == LET i == Idx(t.n, p) IN (k[1] * i[1] * w[1] + k[2] * i[2] * w[2] + k[3] * i[3] * w[3]) % L
      In(p) == LET i == Idx(t.n, p) IN \A d \in 1 .. 3 : d \in t.ax \/ i[d] = k[d]
      ang == TLCEval([p \in 0 .. N - 1 |-> IF In(p) THEN A(p) + 1 ELSE 0])
  IN <<SumF([p \in 0 .. N - 1 |-> IF ang[p] = 0 THEN 0 ELSE c.re[p] * sn[1][ang[p]] - c.im[p] * sn[2][ang[p]] * t.sgn], N - 1, 0),
       SumF([p \in 0 .. N - 1 |-> IF ang[p] = 0 THEN 0 ELSE c.im[p] * sn[1][ang[p]] + c.re[p] * sn[2][ang[p]] * t.sgn], N - 1, 0)>>
Weights(t) == [d \in 1 .. 3 |-> IF d \in t.ax THEN Den(t) \div t.n[d] ELSE 0]
DFT(t, x) ==
  LET c == Full(t, x)  L == Den(t)  sn == <<CosTab[L], SinTab[L]>>  w == Weights(t)  od == OutDims(t)
  IN TLCEval([q \in 0 .. Vol(od) - 1 |-> Coef(t, c, sn, w, Idx(od, q))])
(* what the rounding of the tables may amount to, for results multiplied by One *)
Mass(x) == LET f == [p \in 0 .. Len(x) - 1 |-> Abs(x[p + 1])] IN SumF(f, Len(x) - 1, 0)
Tol(t, x) == (IF t.kind = "cr" THEN 2 ELSE 1) * Mass(x)
(* y, given in thousandths, is num/den times the transform r of x: within rounding and one hundredth *)
Matches(t, x, r, y, num, den) ==
  LET od == OutDims(t)
      cx == t.kind # "cr"
      near(s, v) == Abs(s * num - v * 100 * den) <= (Tol(t, x) + 100) * num + 1100 * den
  IN /\ Len(y) = Vol(od) * (IF cx THEN 2 ELSE 1)
     /\ \A q \in 0 .. Vol(od) - 1 :
          IF cx THEN near(r[q][1], y[2 * q + 1]) /\ near(r[q][2], y[2 * q + 2]) ELSE near(r[q][1], y[q + 1])
=============================================================================
