--------------------------- MODULE ElementwiseTrace ---------------------------
(* Checks traces of element-wise expression assignments, and of functions against scalar mathematics. *)
EXTENDS Elementwise, TLC, Json, IOUtils
VARIABLES l
vars == <<l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1
P(s) == [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
Begin == Is("begin")
B01(x) == IF x THEN 1 ELSE 0
EwOk ==
  /\ Is("ew") /\ E.intact /\ Len(E.r) = Len(E.d)
  /\ (CASE E.g \in {"i", "f", "d", "T"} ->
             LET s == E.b[1] IN \A i \in 1..Len(E.d) :
               E.r[i] = IF E.code < 60 THEN Arith(FALSE, E.code, E.d[i], E.a[i], E.b[i], E.c[i], s) ELSE Real(E.g # "i", E.code, E.d[i], E.a[i], E.b[i], E.c[i], s)
        [] E.g = "z" ->
             LET d == P(E.d) a == P(E.a) b == P(E.b) c == P(E.c) r == P(E.r) s == b[1] IN \A i \in 1..Len(d) :
               r[i] = IF E.code < 60 THEN Arith(TRUE, E.code, d[i], a[i], b[i], c[i], s) ELSE Cx(E.code, d[i], a[i], b[i], c[i], s)
        [] E.g = "r" ->
             LET a == P(E.a) b == P(E.b) IN \A i \in 1..Len(E.d) : E.r[i] = CxReal(E.code, E.d[i], a[i], b[i], E.c[i])
        [] E.g = "b" ->
             LET s == E.b[1] IN \A i \in 1..Len(E.d) : E.r[i] = B01(Bool(E.code, E.d[i] = 1, E.a[i], E.b[i], E.c[i], s))
        [] OTHER ->
             IF E.code < 170 THEN \A i \in 1..Len(E.d) : E.r[i] = Conv(E.code, E.d[i], E.a[i], E.b[i], E.c[i])
             ELSE LET d == P(E.d) r == P(E.r) IN \A i \in 1..Len(d) : r[i] = ConvCx(E.code, d[i], E.a[i], E.b[i], E.c[i])) = TRUE
\* within rounding of the printed precision
FnOk == /\ Is("fn") /\ E.intact /\ Len(E.r) = Len(E.want) /\ Len(E.want) >= 1
        /\ \A i \in 1..Len(E.r) : Abs(E.r[i] - E.want[i]) <= 1
Next == Begin \/ EwOk \/ FnOk
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
===============================================================================
