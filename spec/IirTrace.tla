------------------------------ MODULE IirTrace -------------------------------
(* Checks traces of the IIR filter objects. *)
EXTENDS Iir, TLC, Json, IOUtils
VARIABLES l, F
vars == <<l, F>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ F = <<>>
Cx(s, cx) == IF cx THEN [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>] ELSE [i \in 1..Len(s) |-> <<s[i], 0>>]
Rows(s, w) == [k \in 1..(Len(s) \div w) |-> SubSeq(s, (k - 1) * w + 1, k * w)]
Begin == Is("begin") /\ F' = <<>>
Info(f) == <<2 * Len(f.a), 2 * Len(f.a), f.isz, f.isz>>
Mk == /\ Is("mk")
      /\ LET b == Rows(Cx(E.b, E.cx), 3)  a == Rows(Cx(E.a, E.cx), 2)
             f == [b |-> b, a |-> a, isz |-> E.isz, save |-> E.save, cx |-> E.cx, s |-> ZeroState(Len(b))]
         IN F' = Append(F, f) /\ E.info = Info(f) /\ E.intact
Copy == Is("copy") /\ F' = Append(F, F[E.a + 1])
Assign == Is("assign") /\ F' = [F EXCEPT ![E.a + 1] = F[E.b + 1]] /\ E.info = Info(F[E.b + 1])
Reset == Is("reset") /\ F' = [F EXCEPT ![E.a + 1].s = ZeroState(Len(@))]
Call == /\ Is("call")
        /\ LET f == F[E.a + 1]  r == Filter(f.b, f.a, f.s, Cx(E.x, f.cx))
           IN /\ E.same /\ E.intact
              /\ Cx(E.y, f.cx) = r.y /\ E.ret = E.y
              /\ F' = IF f.save = 1 THEN [F EXCEPT ![E.a + 1].s = r.s] ELSE F
Next == Begin \/ Mk \/ Copy \/ Assign \/ Reset \/ Call
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
