------------------------------- MODULE ConvTrace --------------------------------
(* Checks recorded convolutions and correlations: w numbers per element (1 or 2). *)
EXTENDS Conv, TLC, Json, IOUtils
VARIABLES l
vars == <<l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1
El(s, w) == IF w = 1 THEN [i \in DOMAIN s |-> <<s[i], 0>>] ELSE [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
D2(d) == IF Len(d) = 1 THEN <<1, d[1]>> ELSE d
Begin == Is("begin")
ConvEv == /\ Is("conv") /\ E.intact /\ E.xa = E.x
          /\ LET vec == Len(E.d) = 1  cd == D2(E.cd)  d == D2(E.d)  kd == KDims(vec, E.sym, cd)
             IN /\ D2(E.kd) = kd /\ D2(E.id) = d
                /\ D2(E.od) = OutDims(E.sup, kd, d, E.dec)
                /\ E.decq = E.dec
                /\ El(E.y, E.w) = ConvOf(E.sup, kd, Kernel(vec, E.sym, cd, El(E.c, E.w)), d, El(E.x, E.w), E.dec)
CorrEv == /\ Is("corr") /\ E.intact /\ E.xa = E.x /\ E.ca = E.c
          /\ LET vec == Len(E.d) = 1  kd == D2(E.cd)  d == D2(E.d)
             IN /\ D2(E.od) = OutDims(E.sup, kd, d, 1) /\ D2(E.kd) = kd /\ D2(E.id) = d
                /\ CorrOk(vec, E.unb, E.sup, kd, El(E.c, E.w), d, El(E.x, E.w), El(E.y, E.w))
Next == Begin \/ ConvEv \/ CorrEv
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=================================================================================
