------------------------------ MODULE FirTrace -------------------------------
(* Checks traces of the FIR filter objects.  Numbers are pairs <<re, im>> (im = 0 for real filters).
   Only the last Len(h) - 1 samples and the number of samples seen are kept.                     *)
EXTENDS Fir, TLC, Json, IOUtils
VARIABLES l, F
vars == <<l, F>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ F = <<>>
Cx(s, cx) == IF cx THEN [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>] ELSE [i \in 1..Len(s) |-> <<s[i], 0>>]
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Zero == <<0, 0>>
Begin == Is("begin") /\ F' = <<>>
Info(f) == <<Len(f.h), Len(f.h), f.isz, Ceil(f.isz, f.dec), f.dec, f.save>>
Mk == /\ Is("mk")
      /\ LET f == [h |-> Expand(Cx(E.k, E.cx), E.sym), isz |-> E.isz, dec |-> E.dec, save |-> E.save, cx |-> E.cx, seen |-> 0, tail |-> <<>>]
         IN F' = Append(F, f) /\ E.info = Info(f) /\ E.intact
Copy == Is("copy") /\ F' = Append(F, F[E.a + 1])
Assign == Is("assign") /\ F' = [F EXCEPT ![E.a + 1] = F[E.b + 1]] /\ E.info = Info(F[E.b + 1])
Reset == Is("reset") /\ F' = [F EXCEPT ![E.a + 1].seen = 0, ![E.a + 1].tail = <<>>]
Drop == Is("drop") /\ UNCHANGED F
Call == /\ Is("call")
        /\ LET f == F[E.a + 1]
               x == Cx(E.x, f.cx)
               s == f.tail \o x                      \* the signal from sample f.seen - Len(f.tail) on
               off == f.seen - Len(f.tail)
               ps == OutPos(f.seen, f.seen + Len(x), f.dec)
               m == Len(f.h)
               out(p) == FoldLeft(LAMBDA acc, j : IF p - j + 1 >= off /\ p - j + 1 >= 0 THEN Add(acc, Mul(f.h[j], s[p - j + 2 - off])) ELSE acc,
                                  Zero, [j \in 1..m |-> j])
               keep == IF Len(s) > m - 1 THEN SubSeq(s, Len(s) - m + 2, Len(s)) ELSE s
           IN /\ Len(x) = f.isz
              /\ E.same /\ E.intact
              /\ E.n = Len(ps)
              /\ Cx(E.y, f.cx) = [i \in 1..Len(ps) |-> out(ps[i])]
              /\ F' = IF f.save = 1 THEN [F EXCEPT ![E.a + 1].seen = f.seen + Len(x), ![E.a + 1].tail = keep] ELSE F
Next == Begin \/ Mk \/ Copy \/ Assign \/ Reset \/ Drop \/ Call
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
