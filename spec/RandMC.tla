------------------------------- MODULE RandMC --------------------------------
(* The generators over a small modulus, against plain integer arithmetic: jumps are iterated steps, leap-frogged
   subsequences partition the base sequence, generators drawn from in any order do not influence each other. *)
EXTENDS Rand, TLC, FiniteSets
CONSTANTS MaxSub, Draws_
M == B * B * TOP
VARIABLES cfg, g, n
vars == <<cfg, g, n>>
A == 1664525 % M   C == 1013904223 % M   P == 69069 % M
Val(x) == x[1] + B * x[2] + B * B * x[3]
Seeds == {0, 1, M - 1, M \div 2 - 3}
Init == /\ cfg \in [s : Seeds, k : 1..MaxSub, p : BOOLEAN]
        /\ g = [i \in 1..cfg.k |-> New(Lm(A), Lm(C), Lm(P), Lm(2 * i + 1), Lm(cfg.s), cfg.k, i, cfg.p)]
        /\ n = [i \in 1..cfg.k |-> 0]
Step(i) == /\ n[i] < Draws_ /\ g' = [g EXCEPT ![i] = Draw(@)[1]] /\ n' = [n EXCEPT ![i] = @ + 1] /\ UNCHANGED cfg
Next == \E i \in 1..cfg.k : Step(i)
Spec == Init /\ [][Next]_vars
RECURSIVE It(_, _, _, _)
It(x, a, c, j) == IF j = 0 THEN x ELSE It((a * x + c) % M, a, c, j - 1)
\* after n draws generator id holds the documented element of the base sequence, whatever the others did
Documented == \A i \in 1..cfg.k :
  Val(g[i].x) = It(cfg.s, A, C, IF cfg.p THEN ((M - 1) \div cfg.k) * (i - 1) + n[i] ELSE i + n[i] * cfg.k)
BurnIsDraws == \A i \in 1..cfg.k : n[i] > 0 => Burn(New(Lm(A), Lm(C), Lm(P), Lm(2 * i + 1), Lm(cfg.s), cfg.k, i, cfg.p), Lm(n[i])) = g[i]
LeapFrog == ~cfg.p => \A i, j \in 1..cfg.k : (i # j /\ M > (Draws_ + 1) * MaxSub) => g[i].x # g[j].x
ASSUME \A x, y \in 0..(M - 1) : /\ Val(Mul(Lm(x), Lm(y))) = (x * y) % M
                                /\ Val(Add(Lm(x), Lm(y))) = (x + y) % M /\ Val(Sub(Lm(x), Lm(y))) = (x - y) % M
ASSUME \A k \in 1..20 : Val(DivMax(k)) = (M - 1) \div k
ASSUME \A x \in Seeds, k \in 0..(M - 1) : Val(Jump(Lm(x), Lm(A), Lm(C), Lm(k))) = It(x, A, C, k)
\* a whole period, where x1 meets x2
ASSUME \A i \in 1..3, d \in 0..(M - 1) :
  LET g0 == Draws(New(Lm(A), Lm(C), Lm(P), Lm(2 * i + 1), Lm(5), 1, 1, TRUE), d, <<>>)[1]
      rest == Lm(M - d)
  IN d > 0 => LET e == Draws(g0, M - d, <<>>)[1] IN Burn(g0, rest) = e /\ e.x1 = e.x2 /\ Val(e.x1) = 2
=============================================================================
