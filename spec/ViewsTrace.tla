----------------------------- MODULE ViewsTrace -----------------------------
EXTENDS Views, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
TInit == l = 1 /\ store = <<>> /\ views = <<>>
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Seen == E.base = store'        \* the whole base block, as read back element by element
TBegin == Is("begin") /\ New(E.dims, E.nc, E.v) /\ Seen
TSub == /\ Is("sub") /\ Derive(E.parent, E.kind, E.a)
        /\ LET v == views'[Len(views')]
           IN  /\ E.dims = v.dims /\ E.nc = v.nc
               /\ E.peek = Content(v, store)
TPut == Is("put") /\ Put(E.id, E.p, E.v) /\ Seen
TFill == Is("fill") /\ Fill(E.id, E.v) /\ Seen
TAssign == Is("assign") /\ Assign(E.id, E.v) /\ Seen
TRead == Is("read") /\ Read(E.id, E.v) /\ Seen
TNext == TBegin \/ TSub \/ TPut \/ TFill \/ TAssign \/ TRead
TSpec == TInit /\ [][TNext]_<<vwvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
