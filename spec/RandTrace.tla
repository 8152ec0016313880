------------------------------ MODULE RandTrace ------------------------------
(* Checks traces of random generators. Real values are logged multiplied by 2^32 as pairs <<high, low 16 bits>>. *)
EXTENDS Rand, TLC, Json, IOUtils
VARIABLES l, F
vars == <<l, F>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ F = <<>>
A0 == Lm(1664525)   C0 == Lm(1013904223)   A1 == Lm(69069)
IsPrime(n) == n > 1 /\ \A d \in 2..(n - 1) : d * d > n \/ n % d # 0
PrimeSeq == LET RECURSIVE S(_, _)
                S(n, acc) == IF Len(acc) = 100 THEN acc ELSE S(n + 2, IF IsPrime(n) THEN Append(acc, n) ELSE acc)
            IN S(3, <<>>)
Primes == TLCEval(PrimeSeq)      \* the odd primes 3, 5, 7, ... 547
\* <<high, low>> to limbs and back
ToL(h, lo) == <<lo % 2048, (lo \div 2048) + (h % 64) * 32, h \div 64>>
Pair(x) == <<x[2] \div 32 + x[3] * 64, x[1] + (x[2] % 32) * 2048>>
PSum(s, i, j) == LET RECURSIVE H(_)  H(k) == IF k > j THEN <<0, 0>> ELSE LET r == H(k + 1)  p == Pair(s[k]) IN <<p[1] + r[1], p[2] + r[2]>>
                 IN H(i)
PNorm(p) == <<p[1] + p[2] \div 65536, p[2] % 65536>>
PSub(p, q) == PNorm(<<p[1] - q[1], p[2] - q[2]>>)
Begin == Is("begin") /\ F' = <<>>
Mk == /\ Is("mk")
      /\ F' = Append(F, New(A0, C0, A1, Lm(Primes[IF E.p THEN E.id ELSE 1]), ToL(E.sh, E.sl), E.n, E.id, E.p))
PerValue == IF E.cx THEN (IF E.kind = "u" THEN 2 ELSE 6) ELSE (IF E.kind = "u" THEN 1 ELSE 12)
\* the reals that the draws d (starting after position b) stand for
Want(p, d, b) ==
  IF E.kind = "u" THEN [i \in 1..PerValue |-> Pair(d[b + i])]
  ELSE IF ~E.cx THEN LET s == PSum(d, b + 1, b + 12) IN <<IF p THEN PSub(<<393216, 0>>, s) ELSE PSub(s, <<393216, 0>>)>>
  ELSE LET s == PSum(d, b + 1, b + 3)  t == PSum(d, b + 4, b + 6)
       IN <<PSub(PSub(<<196608, 0>>, t), s), PSub(s, t)>>
Near(p, q) == LET e == PSub(p, q) IN IF E.tol = 0 THEN e = <<0, 0>>
              ELSE (e[1] \in {0, -1} /\ LET x == e[1] * 65536 + e[2] IN x <= E.tol /\ x >= -E.tol) = TRUE
DrawN == /\ Is("draw")
        /\ LET g == F[E.a + 1]
               r == Draws(g, PerValue * E.n, <<>>)
               m == IF E.cx THEN 2 ELSE 1
           IN /\ E.intact /\ Len(E.v) = 2 * m * E.n
              /\ \A i \in 1..E.n : LET w == Want(g.p, r[2], PerValue * (i - 1))
                                   IN \A j \in 1..m : LET q == 2 * (m * (i - 1) + j) IN Near(<<E.v[q - 1], E.v[q]>>, w[j])
              /\ F' = [F EXCEPT ![E.a + 1] = r[1]]
BurnN == /\ Is("burn")
         /\ LET m == Mul(ToL(E.nh, E.nl), Lm(PerValue)) IN F' = [F EXCEPT ![E.a + 1] = Burn(@, m)]
Next == Begin \/ Mk \/ DrawN \/ BurnN
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
