----------------------------- MODULE LibraryTrace ----------------------------
(* Checks the events recorded from threads creating, using and destroying library objects. *)
EXTENDS Library, TLC, Json, IOUtils
VARIABLES l
vars == <<lvars, l>>
T == 0 .. 5
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ Threads0(T)
Begin == /\ Is("begin")
         /\ live' = [t \in T |-> 0] /\ pend' = [t \in T |-> "none"] /\ mpi' = "none" /\ att' = FALSE
         /\ def' = [t \in T |-> 0] /\ keep' = [t \in T |-> FALSE]
TCall == Is("call") /\ Call(E.t, E.w)
TMpi == /\ Is("mpi")
        /\ \/ E.f = "init" /\ (IF pend[E.t] = "none" THEN AppInit ELSE MpiInit(E.t))
           \/ E.f = "fini" /\ (IF pend[E.t] = "none" THEN AppFini ELSE MpiFini(E.t))
           \/ E.f = "attach" /\ Attach(E.t)
           \/ E.f = "detach" /\ Detach(E.t)
TRet == /\ Is("ret") /\ E.ok /\ E.w = pend[E.t]
        /\ CASE E.w = "create" -> RetCreate(E.t)
             [] E.w = "destroy" -> RetDestroy(E.t)
             [] E.w = "use" -> /\ E.np = 1 /\ E.lp = 0 /\ E.def = def[E.t] /\ E.via = (def[E.t] = 1)
                               /\ RetUse(E.t)
             [] OTHER -> RetUse(E.t)
TSet == Is("setdef") /\ SetDef(E.t, E.d)
TQuiet == Is("quiet") /\ E.inited = (mpi # "none") /\ E.fini = (mpi = "done") /\ E.att = att /\ UNCHANGED lvars
End == Is("end") /\ Idle /\ UNCHANGED lvars
Next == Begin \/ TCall \/ TMpi \/ TRet \/ TSet \/ TQuiet \/ End
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
