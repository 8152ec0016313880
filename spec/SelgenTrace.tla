----------------------------- MODULE SelgenTrace -----------------------------
(* Checks traces of the selection, generation and manipulation functions. Element lists hold E.w integers per
   element (2 for complex). *)
EXTENDS Selgen, TLC, Json, IOUtils
VARIABLES l
vars == <<l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1
El(s) == IF E.w = 1 THEN s ELSE [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
Begin == Is("begin")
RampOk == /\ Is("ramp") /\ E.intact
          /\ LET one(i) == Ramp(E.a[i], E.b[i], E.n)
             IN El(E.x) = IF E.w = 1 THEN one(1) ELSE [k \in 1..E.n |-> <<one(1)[k], one(2)[k]>>]
FirstOk == /\ Is("first") /\ E.intact
           /\ E.ret = First(E.begin, LAMBDA i : CASE E.pred = 0 -> E.v[i] = E.u[i]
                                                  [] E.pred = 1 -> E.v[i] < E.u[i]
                                                  [] OTHER -> E.v[i] > E.u[i] + 1, Len(E.v))
Pos(ix, d) == [i \in 1..(Len(ix) \div Len(d)) |-> Lin(d, SubSeq(ix, (i - 1) * Len(d) + 1, i * Len(d)))]
IbOk == /\ Is("ib") /\ E.intact
        /\ LET r == IndexBool([i \in 1..Len(E.s) |-> E.s[i] = 1], Pos(E.old, E.d))
           IN E.ret = r[1] /\ Pos(E.ix, E.d) = r[2] /\ Len(E.ix) = Len(E.old)
GatherOk == Is("gather") /\ E.intact /\ El(E.out) = Gather(El(E.s), Pos(E.ix, E.d))
ScatterOk == Is("scatter") /\ E.intact /\ El(E.out) = Scatter(El(E.s), Pos(E.ix, E.d), El(E.dst), 1)
ClipOk == /\ Is("clip") /\ E.intact
          /\ E.out = [i \in 1..Len(E.x) |-> IF E.inv THEN InvClip(E.x[i], E.t[1], E.t[2], E.t[3], E.c[1], E.c[2])
                                            ELSE Clip(E.x[i], E.t[1], E.t[3], E.c[1], E.c[2])]
SwapOk == Is("swap") /\ E.intact /\ El(E.a2) = El(E.b) /\ El(E.b2) = El(E.a)
Want(s) == CASE E.kind = "1" -> FreqSwap1(s) [] E.kind = "2" -> FreqSwap2(s, E.d[1], E.d[2])
             [] E.kind = "r" -> FreqSwapRow(s, E.d[1], E.d[2]) [] OTHER -> FreqSwapCol(s, E.d[1], E.d[2])
FsOk == /\ Is("fs") /\ E.intact
        /\ El(E.out) = Want(El(E.x))
        /\ E.same
Next == Begin \/ RampOk \/ FirstOk \/ IbOk \/ GatherOk \/ ScatterOk \/ ClipOk \/ SwapOk \/ FsOk
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
