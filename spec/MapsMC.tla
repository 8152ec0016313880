------------------------------ MODULE MapsMC -------------------------------
(* The dealer: indices of one dimension are handed out one at a time following the distribution
   rule; the closed forms used by the library (and by Maps) must agree with the outcome.      *)
EXTENDS Maps
CONSTANTS MaxExt, MaxSub, MaxC
VARIABLES d, e, nxt, hands, turn, run   \* hands: sb -> sequence of indices, turn: subblock being dealt, run: indices left in the turn
vars == <<d, e, nxt, hands, turn, run>>
Dists == [k : {"block"}, n : 1..MaxSub, c : {0}] \cup [k : {"cyclic"}, n : 1..MaxSub, c : 1..MaxC] \cup {[k |-> "whole", n |-> 1, c |-> 0]}
RunOf(dd, ee, sb) == CASE dd.k = "whole" -> ee
                       [] dd.k = "block" -> Quota(ee, dd.n, sb)
                       [] dd.k = "cyclic" -> dd.c
Init == /\ d \in Dists /\ e \in 0..MaxExt
        /\ nxt = 0 /\ hands = [s \in 0..(d.n - 1) |-> <<>>] /\ turn = 0 /\ run = RunOf(d, e, 0)
Deal == /\ nxt < e /\ run > 0
        /\ hands' = [hands EXCEPT ![turn] = Append(@, nxt)]
        /\ nxt' = nxt + 1 /\ run' = run - 1 /\ UNCHANGED <<d, e, turn>>
Pass == /\ nxt < e /\ run = 0
        /\ turn' = (turn + 1) % d.n /\ run' = RunOf(d, e, (turn + 1) % d.n)
        /\ UNCHANGED <<d, e, nxt, hands>>
Next == Deal \/ Pass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* library closed forms
LibOwner(i) == IF d.k = "whole" THEN 0
               ELSE IF d.k = "cyclic" THEN (i \div d.c) % d.n
               ELSE LET q == e \div d.n  r == e % d.n
                    IN IF i < (q + 1) * r THEN i \div (q + 1) ELSE (i - r) \div q
LibLocal(i) == IF d.k = "whole" THEN i
               ELSE IF d.k = "cyclic" THEN (((i \div d.c) - ((i \div d.c) % d.n)) \div d.n) * d.c + (i % d.c)
               ELSE LET q == e \div d.n  r == e % d.n
                    IN IF i < (q + 1) * r THEN i % (q + 1) ELSE (i - r) % q
LibGlobal(s, i) == IF d.k = "whole" THEN i
                   ELSE IF d.k = "cyclic" THEN ((i \div d.c) * d.n + s) * d.c + (i % d.c)
                   ELSE s * (e \div d.n) + Min2(s, e % d.n) + i
LibCycSize(s) == LET ch == (e \div d.c) + (IF e % d.c # 0 THEN 1 ELSE 0)
                     sc == (ch \div d.n) + (IF s < ch % d.n THEN 1 ELSE 0)
                 IN sc * d.c + (IF e % d.c # 0 /\ (s + 1) % d.n = ch % d.n THEN (e % d.c) - d.c ELSE 0)
LibSize(s) == IF d.k = "whole" THEN e ELSE IF d.k = "cyclic" THEN LibCycSize(s) ELSE Quota(e, d.n, s)
Dealt == nxt = e
ClosedForms == \A s \in 0..(d.n - 1) :
   \A k \in 1..Len(hands[s]) :
      LET i == hands[s][k] IN
        /\ DOwner(d, e, i) = s /\ DLocal(d, e, i) = k - 1
        /\ LibOwner(i) = s /\ LibLocal(i) = k - 1 /\ LibGlobal(s, k - 1) = i
Sizes == Dealt => \A s \in 0..(d.n - 1) : LibSize(s) = Len(hands[s]) /\ DSize(d, e, s) = Len(hands[s])
Partition == \A i \in 0..(nxt - 1) : Cardinality({s \in 0..(d.n - 1) : \E k \in 1..Len(hands[s]) : hands[s][k] = i}) = 1
Balanced == (Dealt /\ d.k = "block") => \A s, t \in 0..(d.n - 1) : s < t => Len(hands[s]) - Len(hands[t]) \in {0, 1}
Finishes == <>Dealt
=============================================================================
