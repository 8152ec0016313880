----------------------------- MODULE FourierTrace ----------------------------
(* Checks traces of Fft and Fftm objects. *)
EXTENDS Fourier, Json, IOUtils
VARIABLES l, F
vars == <<l, F>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ F = <<>>
Begin == Is("begin") /\ F' = <<>>
(* The transform an object of kind k stands for: dimension of the views, direction, transformed axes, special axis. *)
Kinds ==
  LET c(d, ax, sgn) == [d |-> d, ax |-> ax, s |-> 0, sgn |-> sgn, kind |-> "cc"]
      rc(d, ax, s) == [d |-> d, ax |-> ax, s |-> s, sgn |-> -1, kind |-> "rc"]
      cr(d, ax, s) == [d |-> d, ax |-> ax, s |-> s, sgn |-> 1, kind |-> "cr"]
  IN [k \in {"1cf", "1ci", "1rc0", "1cr0", "2cf", "2ci", "2rc0", "2rc1", "2cr0", "2cr1", "3cf", "3ci", "3rc0", "3rc1", "3rc2",
             "3cr0", "3cr1", "3cr2", "mcf0", "mcf1", "mci0", "mci1", "mrc0", "mrc1", "mcr0", "mcr1"} |->
       CASE k = "1cf" -> c(1, {1}, -1) [] k = "1ci" -> c(1, {1}, 1) [] k = "1rc0" -> rc(1, {1}, 1) [] k = "1cr0" -> cr(1, {1}, 1)
         [] k = "2cf" -> c(2, {1, 2}, -1) [] k = "2ci" -> c(2, {1, 2}, 1)
         [] k = "2rc0" -> rc(2, {1, 2}, 1) [] k = "2rc1" -> rc(2, {1, 2}, 2) [] k = "2cr0" -> cr(2, {1, 2}, 1) [] k = "2cr1" -> cr(2, {1, 2}, 2)
         [] k = "3cf" -> c(3, {1, 2, 3}, -1) [] k = "3ci" -> c(3, {1, 2, 3}, 1)
         [] k = "3rc0" -> rc(3, {1, 2, 3}, 1) [] k = "3rc1" -> rc(3, {1, 2, 3}, 2) [] k = "3rc2" -> rc(3, {1, 2, 3}, 3)
         [] k = "3cr0" -> cr(3, {1, 2, 3}, 1) [] k = "3cr1" -> cr(3, {1, 2, 3}, 2) [] k = "3cr2" -> cr(3, {1, 2, 3}, 3)
         \* row 0: each row is transformed, that is along axis 2
         [] k = "mcf0" -> c(2, {2}, -1) [] k = "mcf1" -> c(2, {1}, -1) [] k = "mci0" -> c(2, {2}, 1) [] k = "mci1" -> c(2, {1}, 1)
         [] k = "mrc0" -> rc(2, {2}, 2) [] k = "mrc1" -> rc(2, {1}, 1) [] k = "mcr0" -> cr(2, {2}, 2) [] k = "mcr1" -> cr(2, {1}, 1)]
Mk == /\ Is("mk")
      /\ LET k == Kinds[E.k]
             t == [n |-> E.n, ax |-> k.ax, s |-> k.s, sgn |-> k.sgn, kind |-> k.kind, num |-> E.num, den |-> E.den]
         IN /\ E.isz = SubSeq(InDims(t), 1, k.d) /\ E.osz = SubSeq(OutDims(t), 1, k.d)
            /\ E.fwd = (k.sgn = -1) /\ E.fwdv = E.fwd /\ E.q
            /\ F' = Append(F, t)
Plus(x, y) == TLCEval([i \in 1 .. Len(x) |-> x[i] + y[i]])
Call == /\ Is("call") /\ E.intact /\ E.same
        /\ LET t == F[E.a + 1]
               x == IF E.m = "s" THEN Plus(E.x, E.x2) ELSE E.x
           IN Matches(t, x, DFT(t, x), E.y, t.num, t.den)
        /\ UNCHANGED F
Next == Begin \/ Mk \/ Call
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
