------------------------------ MODULE HistoTrace -----------------------------
(* Checks traces of histogram objects. *)
EXTENDS Histo, TLC, Json, IOUtils
VARIABLES l, F
vars == <<l, F>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ F = <<>>
Begin == Is("begin") /\ F' = <<>>
Mk == /\ Is("mk")
      /\ F' = Append(F, [mn |-> E.mn, mx |-> E.mx, n |-> E.n, h |-> IF Len(E.h) = 0 THEN Zero(E.n) ELSE E.h])
Call == /\ Is("call")
        /\ LET f == F[E.a + 1]
               r == AddTo(f.mn, f.mx, f.n, IF E.acc THEN f.h ELSE Zero(f.n), E.x, 1)
           IN /\ E.ret = r /\ E.intact /\ E.same
              /\ Total(r) = Len(E.x) + (IF E.acc THEN Total(f.h) ELSE 0)
              /\ F' = [F EXCEPT ![E.a + 1].h = r]
Next == Begin \/ Mk \/ Call
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
