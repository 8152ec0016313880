---------------------------- MODULE MatvecTrace ----------------------------
(* Checks traces of matrix-vector functions applied to a store of objects. *)
EXTENDS Matvec, Json, IOUtils
VARIABLES l, S
vars == <<l, S>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ S = <<>>
Pairs(cx, x) == IF cx THEN [i \in 1 .. Len(x) \div 2 |-> <<x[2 * i - 1], x[2 * i]>>] ELSE [i \in 1 .. Len(x) |-> <<x[i], 0>>]
Begin == Is("begin") /\ S' = <<>>
Mk == Is("mk") /\ E.ok /\ S' = Append(S, [cx |-> E.cx, m |-> [r |-> E.r, c |-> E.c, v |-> TLCEval(Pairs(E.cx, E.x))]])
Set == Is("set") /\ S' = [S EXCEPT ![E.a + 1].m.v = TLCEval(Pairs(S[E.a + 1].cx, E.x))]
Opnd(i) == IF i <= Len(E.a) THEN S[E.a[i] + 1].m ELSE [r |-> 0, c |-> 0, v |-> <<>>]
Expected == IF E.f \in ScalarFns THEN S[E.a[1] + 1].m ELSE Result(E.f, S[E.a[1] + 1].m, Opnd(2), Opnd(3), E.k)
Call == /\ Is("call") /\ E.intact
        /\ LET d == E.a[1] + 1
               r == Expected
           IN /\ (IF E.f \in ScalarFns THEN Pairs(Len(E.s) = 2, E.s) = <<Scalar(E.f, Opnd(1), Opnd(2), E.k)>>
                  ELSE /\ r.r = S[d].m.r /\ r.c = S[d].m.c
                       /\ Pairs(S[d].cx, E.y) = r.v
                       /\ (E.f = "modulate" => E.s = <<Len(r.v) * E.k[1] + E.k[3]>>)) = TRUE
              /\ S' = [S EXCEPT ![d].m = r]
Next == Begin \/ Mk \/ Set \/ Call
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
