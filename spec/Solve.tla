------------------------------- MODULE Solve -------------------------------
(* Solver objects (LU, Cholesky, QR, singular value decomposition) over exact Gaussian-integer matrices.

   A solver is [k, cx, m, n, p, q, ok, A, Q, V, sv]: kind "l", "c", "q" or "s"; element domain; size; p, q its storage options
   (Cholesky: 1 uses the upper part, 0 the lower; QR: 0 nothing, 1 the first columns of Q, 2 all of Q kept; SVD: likewise for U
   in p and V in q); ok: the last decomposition succeeded; A: the matrix it stands for.  Q and V (for SVD, Q is U) are the factors as they were first observed
   after the decomposition, <<>> before that: a decomposition determines them only up to signs, so what is specified of them is the
   relation to A, and that every later answer is about the same factor.
   Observed values come as multiples of 1/N; N = 1 means that they are exact.                                                   *)
EXTENDS Matvec

Abs(x) == IF x < 0 THEN -x ELSE x
Norm1(e) == Abs(e[1]) + Abs(e[2])
RECURSIVE ISum(_, _)
ISum(f, n) == IF n = 0 THEN 0 ELSE ISum(f, n - 1) + f[n]
RowAbs(a, i) == ISum([j \in 1 .. a.c |-> Norm1(At(a, i, j))], a.c)
ColAbs(a, j) == ISum([i \in 1 .. a.r |-> Norm1(At(a, i, j))], a.r)
Max2(x, y) == IF x < y THEN y ELSE x
RECURSIVE MaxTo(_, _)
MaxTo(f, n) == IF n = 0 THEN 0 ELSE Max2(MaxTo(f, n - 1), f[n])
MaxRowAbs(a) == MaxTo([i \in 1 .. a.r |-> RowAbs(a, i)], a.r)
MaxColAbs(a) == MaxTo([j \in 1 .. a.c |-> ColAbs(a, j)], a.c)
Close(x, y, t) == Abs(x[1] - y[1]) <= t /\ Abs(x[2] - y[2]) <= t
SameSize(a, b) == a.r = b.r /\ a.c = b.c
Near(a, b, t) == SameSize(a, b) /\ \A i \in 1 .. Len(a.v) : Close(a.v[i], b.v[i], t)
Ident(n) == Build(n, n, LAMBDA i, j : IF i = j THEN One ELSE Zero)
Times(k, a) == Map1(a, LAMBDA x : <<k * x[1], k * x[2]>>)
Cols(a, lo, hi) == Build(a.r, hi - lo + 1, LAMBDA i, j : At(a, i, lo + j - 1))
Square(a) == Prod(Herm(a), a)

(* ---- determinants and definiteness ---- *)
Minor(a, k) == Build(a.r - 1, a.c - 1, LAMBDA i, j : At(a, i + 1, IF j < k THEN j ELSE j + 1))
RECURSIVE Det(_)
Det(a) == IF a.r = 1 THEN At(a, 1, 1)
          ELSE SumTo([k \in 1 .. a.c |-> IF At(a, 1, k) = Zero THEN Zero
                                        ELSE LET d == Mul(At(a, 1, k), Det(Minor(a, k))) IN IF k % 2 = 1 THEN d ELSE <<-d[1], -d[2]>>], a.c)
Leading(a, n) == Build(n, n, LAMBDA i, j : At(a, i, j))
Small(a) == a.r <= 5
Dominant(a) == \A i \in 1 .. a.r : 2 * Norm1(At(a, i, i)) > RowAbs(a, i)
Hermitian(a) == a = Herm(a)
\* "yes", "no" or, where this specification does not say, "any"
PosDef(a) == CASE \E i \in 1 .. a.r : At(a, i, i)[1] <= 0 -> "no"
               [] Small(a) -> IF \A n \in 1 .. a.r : Det(Leading(a, n))[1] > 0 THEN "yes" ELSE "no"
               [] OTHER -> IF Dominant(a) THEN "yes" ELSE "any"
ZeroLine(a) == (\E i \in 1 .. a.r : RowAbs(a, i) = 0) \/ (\E j \in 1 .. a.c : ColAbs(a, j) = 0)
Regular(a) == CASE ZeroLine(a) -> "no"
                [] Small(a) /\ a.r = a.c -> IF Det(a) # Zero THEN "yes" ELSE "any"      \* rounding may hide a general singularity
                [] OTHER -> IF a.r = a.c /\ Dominant(a) THEN "yes" ELSE "any"
Agrees(ok, y) == y = "any" \/ ok = (y = "yes")

(* ---- what a decomposition stands for ---- *)
Triangle(up, a) == Build(a.r, a.c, LAMBDA i, j : IF i = j THEN <<At(a, i, j)[1], 0>>
                                                  ELSE IF (j > i) = up THEN At(a, i, j) ELSE Conj(At(a, j, i)))
Meant(s, a) == IF s.k = "c" THEN Triangle(s.p = 1, a) ELSE a
Toeplitz(t) == Build(Len(t), Len(t), LAMBDA i, j : IF j >= i THEN t[j - i + 1] ELSE Conj(t[i - j + 1]))
OpOf(tr, a) == CASE tr = "n" -> a [] tr = "t" -> Trans(a) [] tr = "h" -> Herm(a)

(* ---- answers ---- *)
\* x/N solves g x = b up to the rounding of x
Solves(g, x, b, N) == /\ x.r = g.c /\ x.c = b.c
                      /\ LET y == Prod(g, x) IN
                         SameSize(y, b) /\ \A i \in 1 .. y.r : LET t == IF N = 1 THEN 0 ELSE RowAbs(g, i) + 2 IN
                                                  \A j \in 1 .. y.c : Close(At(y, i, j), Mul(<<N, 0>>, At(b, i, j)), t)
LeastSquares(a, x, b, N) == Solves(Square(a), x, Prod(Herm(a), b), N)
Covariance(a, x, b, N) == Solves(Square(a), x, b, N)

\* N Q: columns orthonormal up to rounding
Orthonormal(q, N) == Near(Square(q), Times(N * N, Ident(q.c)), N * (q.r + 3))
\* Q (N times) times an upper triangular R is A
IsQ(q, a, N) == /\ q.r = a.r /\ q.c \in {a.c, a.r}
                /\ Orthonormal(q, N)
                /\ LET R == Prod(Herm(q), a)
                   IN  /\ \A j \in 1 .. R.c : \A i \in j + 1 .. R.r : Close(At(R, i, j), Zero, ColAbs(a, j) + 4)
                       /\ Near(Prod(q, R), Times(N * N, a), N * (2 * MaxColAbs(a) + 4) * q.c)
\* R x = alpha b, resp. R^H x = alpha b
SolvesR(q, a, tr, x, al, b, N) ==
  LET q1 == Cols(q, 1, a.c) IN
  IF tr = "n" THEN Near(Prod(a, x), Scale(al, Prod(q1, b)), MaxRowAbs(a) + Norm1(al) * MaxColAbs(b) + 4)
  ELSE Near(Prod(Herm(a), Prod(q1, x)), Scale(<<N * N * al[1], N * N * al[2]>>, b), MaxColAbs(a) * (MaxColAbs(x) + 2 * N))
\* products with a factor observed as N Q: the result is N times the product
FactorProduct(q, side, tr, b) == LET f == IF tr = "n" THEN q ELSE Herm(q) IN IF side = "l" THEN Prod(f, b) ELSE Prod(b, f)
Conforms(q, side, tr, b) == LET r == IF tr = "n" THEN q.r ELSE q.c  c == IF tr = "n" THEN q.c ELSE q.r IN IF side = "l" THEN b.r = c ELSE b.c = r
IsFactorProduct(q, side, tr, b, x) == Conforms(q, side, tr, b) /\ Near(x, FactorProduct(q, side, tr, b), Max2(MaxColAbs(b), MaxRowAbs(b)) + 3)

(* ---- singular values: sv is Ns times the values, in order; u, v are N times the vectors ---- *)
Sorted(sv) == \A i \in 1 .. Len(sv) : sv[i] >= 0 /\ (i < Len(sv) => sv[i] >= sv[i + 1])
Min2(x, y) == IF x < y THEN x ELSE y
SqSum(a) == ISum([i \in 1 .. Len(a.v) |-> a.v[i][1] * a.v[i][1] + a.v[i][2] * a.v[i][2]], Len(a.v))
SingularValues(a, sv, Ns) ==
  /\ Len(sv) = Min2(a.r, a.c) /\ Sorted(sv)
  /\ Abs(ISum([i \in 1 .. Len(sv) |-> sv[i] * sv[i]], Len(sv)) - Ns * Ns * SqSum(a)) <= 2 * ISum(sv, Len(sv)) + Len(sv) + 1
\* one side's vectors: a (a^H u_i) = s_i^2 u_i; those beyond the singular values are in the kernel of a^H
OneSide(a, u, sv, N, Ns) ==
  /\ u.r = a.r /\ u.c \in {Len(sv), a.r} /\ Orthonormal(u, N)
  /\ LET w == Prod(Herm(a), u)
         y == Prod(a, w)
         g == MaxRowAbs(a) * MaxColAbs(a)
     IN \A j \in 1 .. u.c : LET s2 == IF j <= Len(sv) THEN (sv[j] * sv[j]) \div Ns ELSE 0
                                 t == Ns * (g + 2) + N * (((2 * (IF j <= Len(sv) THEN sv[j] ELSE 0)) \div Ns) + 3)
                             IN  \A i \in 1 .. u.r : Close(<<Ns * At(y, i, j)[1], Ns * At(y, i, j)[2]>>, <<s2 * At(u, i, j)[1], s2 * At(u, i, j)[2]>>, t)
BothSides(a, u, v, sv, N, Ns) ==
  LET w == Prod(a, v) IN
  \A j \in 1 .. Len(sv) : \A i \in 1 .. a.r :
     Close(<<Ns * At(w, i, j)[1], Ns * At(w, i, j)[2]>>, <<sv[j] * At(u, i, j)[1], sv[j] * At(u, i, j)[2]>>, Ns * (RowAbs(a, i) + 2) + N + sv[j])

(* ---- the store of solvers ---- *)
None == [r |-> 0, c |-> 0, v |-> <<>>]
New(k, cx, m, n, p, q) == [k |-> k, cx |-> cx, m |-> m, n |-> n, p |-> p, q |-> q, ok |-> FALSE, A |-> None, Q |-> None, V |-> None, sv |-> <<>>]
Gone == [k |-> "-"]
CanAssign(s, t) == s.k = t.k /\ s.k # "-" /\ s.cx = t.cx /\ s.m = t.m /\ s.n = t.n /\ (s.k = "s" => s.p = t.p /\ s.q = t.q)
FactorSize(s) == IF s.k = "q" THEN <<s.m, IF s.p = 2 THEN s.m ELSE s.n>> ELSE <<s.m, IF s.p = 2 THEN s.m ELSE Min2(s.m, s.n)>>
VSize(s) == <<s.n, IF s.q = 2 THEN s.n ELSE Min2(s.m, s.n)>>
DecomposeOk(s, a, ok) ==
  /\ a.r = s.m /\ a.c = s.n
  /\ CASE s.k = "l" -> Agrees(ok, Regular(a))
       [] s.k = "c" -> Agrees(ok, PosDef(Triangle(s.p = 1, a)))
       [] OTHER -> ok
Decomposed(s, a, ok, sv) == [s EXCEPT !.ok = ok, !.A = Meant(s, a), !.Q = None, !.V = None, !.sv = sv]
=============================================================================
