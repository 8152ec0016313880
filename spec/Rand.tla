-------------------------------- MODULE Rand ---------------------------------
(* The documented random generators: arithmetic modulo M = B*B*TOP on three limbs, so that the real modulus
   2^32 (B = 2048, TOP = 1024) stays within TLC's integers and a small one can be explored exhaustively. *)
EXTENDS Integers, Sequences
CONSTANTS B, TOP
Norm(a, b, c) == LET k == b + a \div B IN <<a % B, k % B, (c + k \div B) % TOP>>
Lm(n) == Norm(n, 0, 0)
Add(x, y) == Norm(x[1] + y[1], x[2] + y[2], x[3] + y[3])
Sub(x, y) == Norm(x[1] - y[1], x[2] - y[2], x[3] - y[3])
Mul(x, y) == LET p == x[1] * y[1]
                 q == x[1] * y[2] + x[2] * y[1] + p \div B
             IN <<p % B, q % B, (x[1] * y[3] + x[2] * y[2] + x[3] * y[1] + q \div B) % TOP>>
One == Lm(1)
\* floor((M - 1) / k) for 0 < k < 2^19
DivMax(k) == LET t == TOP - 1  r == (t % k) * B + B - 1  s == (r % k) * B + B - 1
             IN <<s \div k, r \div k, t \div k>>
\* bit i of x (0..) and the number of bits
Bits(x) == LET RECURSIVE F(_, _)
               F(v, n) == IF n = 1 THEN <<>> ELSE <<v % 2>> \o F(v \div 2, n \div 2)
           IN F(x[1], B) \o F(x[2], B) \o F(x[3], TOP)
\* n steps of x -> a*x + c, n given by its bits
RECURSIVE JumpB(_, _, _, _, _)
JumpB(x, a, c, bits, i) ==
  IF i > Len(bits) THEN x
  ELSE JumpB(IF bits[i] = 1 THEN Add(Mul(a, x), c) ELSE x, Mul(a, a), Mul(Add(a, One), c), bits, i + 1)
Jump(x, a, c, n) == JumpB(x, a, c, Bits(n), 1)
Lcg(x, a, c) == Add(Mul(a, x), c)
\* multiplier and adder of k steps at once
RECURSIVE Compose(_, _, _)
Compose(a, c, k) == IF k = 1 THEN <<a, c>> ELSE LET r == Compose(a, c, k - 1) IN <<Mul(a, r[1]), Lcg(r[2], a, c)>>
RECURSIVE Iter(_, _, _, _)
Iter(x, a, c, n) == IF n = 0 THEN x ELSE Iter(Lcg(x, a, c), a, c, n - 1)
\* generators; k counts the draws since x1 = x2 (modulo M)
New(A0, C0, A1, prime, seed, n, id, portable) ==
  IF portable
  THEN [p |-> TRUE, a |-> A0, c |-> C0, a1 |-> A1, c1 |-> prime, k |-> Lm(0), x1 |-> One, x2 |-> One,
        x |-> IF id = 1 THEN seed ELSE Jump(seed, A0, C0, Mul(DivMax(n), Lm(id - 1)))]
  ELSE LET q == Compose(A0, C0, n)
       IN [p |-> FALSE, a |-> q[1], c |-> q[2], a1 |-> Lm(0), c1 |-> Lm(0), k |-> Lm(0), x1 |-> Lm(0), x2 |-> Lm(0),
           x |-> Iter(seed, A0, C0, id)]
\* one draw: <<generator, value>>
Draw(g) ==
  LET x == Lcg(g.x, g.a, g.c)
  IN IF ~g.p THEN <<[g EXCEPT !.x = x], x>>
     ELSE LET x1 == Lcg(g.x1, g.a1, g.c1)  eq == x1 = g.x2
          IN <<[g EXCEPT !.x = x, !.x1 = IF eq THEN Add(x1, One) ELSE x1, !.x2 = IF eq THEN Add(x1, One) ELSE @,
                         !.k = Add(@, One)], Sub(x, x1)>>
\* n draws at once, at most up to the next time x1 meets x2 (which has period M: k + n <= M)
Burn(g, n) ==
  LET x == Jump(g.x, g.a, g.c, n)
  IN IF ~g.p THEN [g EXCEPT !.x = x]
     ELSE LET x1 == Jump(g.x1, g.a1, g.c1, n)  k == Add(g.k, n)
          IN IF k = Lm(0) THEN [g EXCEPT !.x = x, !.x1 = Add(x1, One), !.x2 = Add(x1, One), !.k = k]
             ELSE [g EXCEPT !.x = x, !.x1 = x1, !.k = k]
RECURSIVE Draws(_, _, _)
Draws(g, n, acc) == IF n = 0 THEN <<g, acc>> ELSE LET d == Draw(g) IN Draws(d[1], n - 1, Append(acc, d[2]))
=============================================================================
