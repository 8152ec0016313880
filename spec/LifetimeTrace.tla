--------------------------- MODULE LifetimeTrace ---------------------------
(* Checks traces of handles being made, derived from each other, read, written and dropped, over recording allocators. *)
EXTENDS Lifetime, Json, IOUtils
VARIABLES l, St, R, Hs, dflt
vars == <<l, St, R, Hs, dflt>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ St = <<>> /\ R = <<>> /\ Hs = <<>> /\ dflt = 0
Begin == Is("begin") /\ St' = <<>> /\ R' = <<>> /\ Hs' = <<>> /\ dflt' = 0
\* the step of this event with handles hs and roots r, about root i (0: none)
Go(hs, r, i) == /\ StepOk(St, E.al, E.fr)
                /\ LET st == Step(St, E.al, E.fr)
                       kept == Kept(St, E.al, E.fr)
                       r2 == Given(r, i, kept, st)
                   IN /\ (kept # {} => i # 0) = TRUE
                      /\ Guarantee(st, r2, hs)
                      /\ St' = st /\ R' = r2 /\ Hs' = hs
Complex == {1, 3, 6}
The(h) == CHOOSE i \in h.roots : TRUE
About(h) == IF Cardinality(h.roots) = 1 THEN The(h) ELSE 0
Mk == /\ Is("mk") /\ UNCHANGED dflt
      /\ LET own == E.kind = 7
             val == IF own \/ E.mode = "L" THEN <<>> ELSE Value(E.kind \in Complex, E.k)
             n == Len(R) + 1
             r == Root(E.bytes, IF E.mode = "b" THEN 1 ELSE dflt, val, own)
         IN /\ Go(Append(Hs, Handle({n}, <<"r", n>>, TRUE)), Append(R, r), n)
            /\ (own \/ E.kind = 6 \/ E.mode = "L" \/ R'[n].stor # {}) = TRUE
\* nothing remains of what could not be made
Fail == Is("fail") /\ UNCHANGED dflt /\ E.thrown /\ Go(Hs, R, 0)
Default == Is("default") /\ dflt' = E.w /\ Go(Hs, R, 0)
Copy == Is("copy") /\ UNCHANGED dflt /\ LET h == Hs[E.h + 1] IN h.live /\ Go(Append(Hs, h), R, About(h))
Der == Is("der") /\ UNCHANGED dflt /\ LET h == Hs[E.h + 1] IN h.live /\ Go(Append(Hs, Derived(h, E.how, Hs[E.o + 1])), R, About(h))
Fresh == /\ Is("fresh") /\ UNCHANGED dflt
         /\ LET h == Hs[E.h + 1]
                n == Len(R) + 1
            IN h.live /\ Go(Append(Hs, Handle({n}, <<"r", n>>, TRUE)), Append(R, Root(-1, dflt, Eval(R, h.t), FALSE)), n) /\ R'[n].stor # {}
Nop == Is("nop") /\ UNCHANGED dflt /\ Go(Append(Hs, Nothing), R, 0)
Skip == Is("skip") /\ UNCHANGED dflt /\ Go(Hs, R, 0)
Read == Is("read") /\ UNCHANGED dflt /\ LET h == Hs[E.h + 1] IN h.live /\ E.x = Eval(R, h.t) /\ Go(Hs, R, 0)
Put(h, v) == h.live /\ h.whole /\ h.t[1] = "r" /\ Go(Hs, [R EXCEPT ![h.t[2]].val = v], h.t[2])
Fill == Is("fill") /\ UNCHANGED dflt /\ E.ok /\ Put(Hs[E.h + 1], Value(E.cx, E.k))
Rebind == Is("rebind") /\ UNCHANGED dflt /\ E.ok /\ Put(Hs[E.h + 1], Value(TRUE, E.k))
Assign == Is("assign") /\ UNCHANGED dflt /\ E.ok /\ Hs[E.o + 1].live /\ Put(Hs[E.h + 1], Eval(R, Hs[E.o + 1].t))
Use == Is("use") /\ UNCHANGED dflt /\ E.ok /\ LET h == Hs[E.h + 1] IN h.live /\ Go(Hs, R, About(h))
Dropped == Is("drop") /\ UNCHANGED dflt /\ LET h == Hs[E.h + 1] IN h.live /\ Go([Hs EXCEPT ![E.h + 1].live = FALSE], R, About(h))
Race == /\ Is("race") /\ UNCHANGED dflt /\ E.ok
        /\ LET d == {E.hs[k] + 1 : k \in 1 .. Len(E.hs)} IN Go([j \in 1 .. Len(Hs) |-> IF j \in d THEN [Hs[j] EXCEPT !.live = FALSE] ELSE Hs[j]], R, 0)
End == Is("end") /\ UNCHANGED dflt /\ ~E.damage /\ Go(Hs, R, 0)
Next == Begin \/ Mk \/ Fail \/ Default \/ Copy \/ Der \/ Fresh \/ Nop \/ Skip \/ Read \/ Fill \/ Rebind \/ Assign \/ Use \/ Dropped \/ Race \/ End
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
