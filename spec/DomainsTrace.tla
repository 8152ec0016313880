--------------------------- MODULE DomainsTrace ---------------------------
EXTENDS Domains, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Dom(x) == [i \in 1..Len(x) |-> [f |-> x[i][1], s |-> x[i][2], n |-> x[i][3]]]
NoTrav == [ext |-> <<0>>, ord |-> <<0>>, cur |-> <<0>>, seen |-> {}]
TInit == /\ l = 1 /\ reg = [r \in 0..7 |-> <<>>] /\ trav = NoTrav
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Fresh == reg' = [r \in 0..7 |-> <<>>] /\ trav' = NoTrav
\* what can be observed of the domain register t after an operation
Obs == LET D == reg'[E.t]
       IN /\ Len(D) = Len(E.nth) /\ E.size = SizeOf(D) /\ E.size2 = SizeOf(D) /\ E.ext = Ext(D)
          /\ E.first = [i \in 1..Len(D) |-> D[i].f]
          /\ \A i \in 1..Len(D) : /\ E.nth[i] = Family(D[i])
                                  /\ E.dom[i][1] = D[i].f /\ E.dom[i][3] = D[i].n
                                  /\ (D[i].n > 1 => E.dom[i][2] = D[i].s) = TRUE
          /\ E.dnth = (IF SizeOf(D) = 0 THEN <<>> ELSE [i \in 1..Len(D) |-> Nth(D[i], D[i].n - 1)])
          /\ E.last = (IF SizeOf(D) = 0 THEN <<>> ELSE [i \in 1..Len(D) |-> Nth(D[i], D[i].n - 1)])
TBegin == Is("begin") /\ Fresh
TMk == Is("mk") /\ Assign(E.t, Dom(E.args)) /\ Obs
TCopy == Is("copy") /\ Assign(E.t, reg[E.r]) /\ Obs
TShift == Is("shift") /\ Shift(E.r, E.t, E.k) /\ Obs
TScale == Is("scale") /\ Scale(E.r, E.t, E.k) /\ Obs
TUnscale == Is("unscale") /\ Unscale(E.r, E.t, E.k) /\ Obs
TNormal == Is("normal") /\ Normal(E.r, E.t) /\ Obs
TProject == Is("project") /\ ProjectTo(E.r, E.t, E.k) /\ Obs
TEmpty == Is("empty") /\ Empty(E.t, E.k) /\ Obs
TEq == Is("eq") /\ Equal(E.a, E.b, E.eq) /\ E.ne = ~E.eq /\ E.sym = E.eq
TConf == Is("conf") /\ Conform(E.a, E.b, E.res)
TPConf == Is("pconf") /\ PConform(E.a, E.b, E.res)
TIntersect == /\ Is("intersect") /\ Intersect(E.a, E.b, E.t, E.found, Dom(E.dom)) /\ Obs
TApply == Is("apply") /\ Apply(E.x, E.y, E.z, E.t, Dom(E.dom)) /\ Obs
TSubset == Is("subset") /\ Subset(E.y, E.z, E.t, Dom(E.dom)) /\ Obs
TTrav == Is("trav") /\ BeginTrav(E.ext, E.ord) /\ E.valid = Ahead(trav')
TNextIdx == Is("next") /\ Step(E.idx) /\ E.valid = Ahead(trav')
TEnd == Is("end") /\ ~Ahead(trav) /\ E.count = Prod(trav.ext) /\ UNCHANGED domvars
TIndex == /\ Is("index") /\ UNCHANGED domvars
          /\ E.eq = (E.a = E.b)
          /\ E.sum = [i \in 1..Len(E.a) |-> E.a[i] + E.b[i]]
          /\ E.diff = [i \in 1..Len(E.a) |-> E.a[i] + E.b[i] - E.b[i]]
TNext == \/ TBegin \/ TMk \/ TCopy \/ TShift \/ TScale \/ TUnscale \/ TNormal \/ TProject \/ TEmpty \/ TEq \/ TConf
         \/ TPConf \/ TIntersect \/ TApply \/ TSubset \/ TTrav \/ TNextIdx \/ TEnd \/ TIndex
TSpec == TInit /\ [][TNext]_<<domvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
