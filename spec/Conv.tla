---------------------------------- MODULE Conv ----------------------------------
(* Convolution and correlation by their defining sums. Numbers are pairs (real, imaginary); data are row-major sequences
   of a matrix with dims <<rows, columns>>; a vector is a matrix of one row. Input outside its range counts as zero. *)
EXTENDS Integers, Sequences
Supports == {"full", "same", "min"}
Syms == {"nonsym", "odd", "even"}
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(a) == <<a[1], 0 - a[2]>>
Zero == <<0, 0>>
\* the kernel given by m coefficients: its length, and the coefficient used for position k
KLen(sym, m) == CASE sym = "nonsym" -> m [] sym = "odd" -> 2 * m - 1 [] OTHER -> 2 * m
Src(sym, m, k) == IF k < m THEN k ELSE IF sym = "odd" THEN 2 * m - 2 - k ELSE 2 * m - 1 - k
\* a vector's kernel extends in the column direction only
KDims(vec, sym, cd) == <<IF vec THEN 1 ELSE KLen(sym, cd[1]), KLen(sym, cd[2])>>
Kernel(vec, sym, cd, c) ==
  LET kd == KDims(vec, sym, cd)
  IN [i \in 1..(kd[1] * kd[2]) |->
        LET r == (i - 1) \div kd[2]  q == (i - 1) % kd[2]
        IN c[(IF vec THEN 0 ELSE Src(sym, cd[1], r)) * cd[2] + Src(sym, cd[2], q) + 1]]
OutLen(sup, M, N, D) == CASE sup = "full" -> ((N + M - 2) \div D) + 1
                          [] sup = "same" -> ((N - 1) \div D) + 1
                          [] OTHER -> (N - M + D) \div D
OutDims(sup, kd, d, D) == <<OutLen(sup, kd[1], d[1], D), OutLen(sup, kd[2], d[2], D)>>
Shift(sup, M) == CASE sup = "full" -> 0 [] sup = "same" -> M \div 2 [] OTHER -> M - 1
Get(x, d, r, c) == IF r \in 0..(d[1] - 1) /\ c \in 0..(d[2] - 1) THEN x[r * d[2] + c + 1] ELSE Zero
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN Zero ELSE Add(F(n), SumTo(F, n - 1))
\* convolution: y[n] = sum over k of h[k] * x[n * D + shift - k]
ConvAt(sup, kd, h, d, x, D, r, c) ==
  LET a == r * D + Shift(sup, kd[1])  b == c * D + Shift(sup, kd[2])
      T(i) == Mul(h[i], Get(x, d, a - ((i - 1) \div kd[2]), b - ((i - 1) % kd[2])))
  IN SumTo(T, kd[1] * kd[2])
ConvOf(sup, kd, h, d, x, D) ==
  LET o == OutDims(sup, kd, d, D)
  IN [i \in 1..(o[1] * o[2]) |-> ConvAt(sup, kd, h, d, x, D, (i - 1) \div o[2], (i - 1) % o[2])]
\* correlation: y[n] = sum over k of r[k] * conj(x[n + k - lead])
Lead(sup, M) == CASE sup = "full" -> M - 1 [] sup = "same" -> M \div 2 [] OTHER -> 0
CorrAt(sup, kd, h, d, x, r, c) ==
  LET a == r - Lead(sup, kd[1])  b == c - Lead(sup, kd[2])
      T(i) == Mul(h[i], Conj(Get(x, d, a + ((i - 1) \div kd[2]), b + ((i - 1) % kd[2]))))
  IN SumTo(T, kd[1] * kd[2])
CorrOf(sup, kd, h, d, x) ==
  LET o == OutDims(sup, kd, d, 1)
  IN [i \in 1..(o[1] * o[2]) |-> CorrAt(sup, kd, h, d, x, (i - 1) \div o[2], (i - 1) % o[2])]
\* the divisor of the unbiased estimate: the number of terms inside the input; for vectors and "same", the end of the
\* output is scaled as C-VSIPL defines it (one less than the number of terms when the reference length is even)
Terms(sup, M, N, n) == LET lo == n - Lead(sup, M)
                       IN (IF lo + M > N THEN N ELSE lo + M) - (IF lo < 0 THEN 0 ELSE lo)
Scale1(vec, sup, M, N, n) == IF vec /\ sup = "same" /\ n >= M \div 2 /\ n >= N - (M \div 2) THEN N - 1 + ((M + 1) \div 2) - n
                             ELSE Terms(sup, M, N, n)
Scale(vec, sup, kd, d, r, c) == Scale1(FALSE, sup, kd[1], d[1], r) * Scale1(vec, sup, kd[2], d[2], c)
\* y is the biased or unbiased result: unbiased values times their divisor give the sums
Times(k, a) == <<k * a[1], k * a[2]>>
CorrOk(vec, unb, sup, kd, h, d, x, y) ==
  LET s == CorrOf(sup, kd, h, d, x)  o == OutDims(sup, kd, d, 1)
  IN /\ DOMAIN y = DOMAIN s
     /\ \A i \in DOMAIN s : (IF unb THEN Times(Scale(vec, sup, kd, d, (i - 1) \div o[2], (i - 1) % o[2]), y[i]) ELSE y[i]) = s[i]
=================================================================================
