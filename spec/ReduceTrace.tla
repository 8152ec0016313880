----------------------------- MODULE ReduceTrace ------------------------------
(* Checks traces of reductions: complete element lists, or long vectors given by a formula. *)
EXTENDS Reduce, TLC, Json, IOUtils
VARIABLES l
vars == <<l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1
El(s, w) == IF w = 1 THEN s ELSE [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
Begin == Is("begin")
Ord(d, f, ex) == CASE Len(d) = 1 -> <<1>>
                 [] ex -> <<>>
                 [] Len(d) = 2 -> (CASE f \in {"d", "s"} -> <<1, 2>> [] OTHER -> <<2, 1>>)
                 [] OTHER -> (CASE f \in {"0", "s"} -> <<1, 2, 3>> [] f = "1" -> <<1, 3, 2>> [] f = "2" -> <<2, 1, 3>>
                                [] f = "3" -> <<2, 3, 1>> [] f = "4" -> <<3, 1, 2>> [] f = "5" -> <<3, 2, 1>> [] OTHER -> <<>>)
Sums == {"sumval", "sumsqval", "meanval", "meansqval"}
RedOk == /\ Is("red") /\ E.intact
         /\ LET s == El(E.x, E.w)
            IN CASE E.fn \in Sums -> E.r = Total(E.fn, E.t, s)
                 [] E.fn = "alltrue" -> E.r[1] % M16 = AllTrue(E.t, s)
                 [] E.fn = "anytrue" -> E.r[1] % M16 = AnyTrue(E.t, s)
                 [] OTHER -> LET k == [i \in 1..Len(s) |-> Key(E.fn, E.t, s[i])]
                             \* equal squared magnitudes may round to different magnitudes
                             IN IdxOk(E.fn, E.d, IF E.t = "z" /\ E.fn \in {"maxmgval", "minmgval"} THEN <<>> ELSE Ord(E.d, E.form, E.ex), k, E.r[1], E.ix)
P(k) == ((E.p[1] * k + E.p[2]) % E.p[3]) + E.p[4]
Q(k) == ((E.p[2] * k + E.p[1]) % E.p[3]) - E.p[4]
\* sums over 0..n-1 by halving keeps the recursion shallow
RECURSIVE Over(_, _, _)
Over(F(_), a, b) == IF b - a = 1 THEN F(a) ELSE LET m == (a + b) \div 2 IN Over(F, a, m) + Over(F, m, b)
Long(F(_)) == Over(F, 0, E.n)
BigOk == /\ Is("big") /\ E.intact
         /\ E.r = CASE E.fn \in {"sumval", "meanval"} -> (IF E.t = "z" THEN <<Long(P), Long(Q)>> ELSE <<Long(P)>>)
                    [] E.fn = "sumsqval" -> (IF E.t = "z" THEN <<Long(LAMBDA k : P(k) * P(k) - Q(k) * Q(k)), Long(LAMBDA k : 2 * P(k) * Q(k))>>
                                             ELSE <<Long(LAMBDA k : P(k) * P(k))>>)
                    [] OTHER -> (IF E.t = "z" THEN <<Long(LAMBDA k : P(k) * P(k) + Q(k) * Q(k))>> ELSE <<Long(LAMBDA k : P(k) * P(k))>>)
Next == Begin \/ RedOk \/ BigOk
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
===============================================================================
