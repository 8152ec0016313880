---------------------------- MODULE MapsTrace -----------------------------
EXTENDS Maps, Json, IOUtils
VARIABLES l, m, ext, me, seen    \* seen: indices placed so far, per subblock (from the "idx" events)
vars == <<l, m, ext, me, seen>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
M0 == [dist |-> <<>>, pset |-> <<>>, repl |-> FALSE]
Init == l = 1 /\ m = M0 /\ ext = <<>> /\ me = 0 /\ seen = {}
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
D == Len(ext)
Code(k) == CASE k = "block" -> 0 [] k = "cyclic" -> 1 [] k = "whole" -> 2
Triples(s) == [x \in 1..(Len(s) \div 3) |-> <<s[3*x-2], s[3*x-1], s[3*x]>>]
SetOf(t) == {t[1] + k * t[2] : k \in 0..(t[3] - 1)}
Begin == /\ Is("begin") /\ m' = MkMap(E.kind, E.n, E.c, E.pset) /\ ext' = E.ext /\ me' = E.me /\ seen' = {}
MapQ == /\ Is("map") /\ UNCHANGED <<m, ext, me, seen>>
        /\ E.nsub = NSub(m) /\ E.nd = Counts(m) /\ E.np = Len(m.pset) /\ E.ps = m.pset
        /\ E.dd = [x \in 1..D |-> Code(m.dist[x].k)] /\ E.cd = [x \in 1..D |-> m.dist[x].c]
Kind == LET k == CHOOSE q \in DOMAIN Kinds : TRUE IN k
Same == /\ Is("same") /\ UNCHANGED <<m, ext, me, seen>>
        /\ E.self = TRUE /\ E.sym = E.same
        /\ LET d2 == [x \in 1..D |-> [m.dist[x] EXCEPT !.n = IF m.dist[x].k = "whole" THEN 1 ELSE E.n[x], !.c = IF m.dist[x].k = "cyclic" THEN E.c[x] ELSE 0]]
               ns == Prod([x \in 1..D |-> d2[x].n])
               m2 == [dist |-> d2, pset |-> IF m.repl THEN E.pset ELSE SubSeq(E.pset, 1, ns), repl |-> m.repl]
           IN ((m = m2 => E.same /\ E.eq) /\ (E.same \/ E.eq => SamePlace(m, m2, ext))) = TRUE
Sub == /\ Is("sub") /\ UNCHANGED <<m, ext, me, seen>>
       /\ LET sb == E.sb  dom == Triples(E.dom)
          IN /\ sb \in 0..(NSub(m) - 1)
             /\ [x \in 1..D |-> dom[x][3]] = SubExt(m, ext, sb)
             /\ \A x \in 1..D : dom[x][1] = 0 /\ dom[x][2] = 1
             /\ E.procs = Holders(m, sb)
             /\ E.np = NPatches(m, ext, sb) /\ Len(E.g) = E.np /\ Len(E.l) = E.np
             /\ \A p \in 0..(E.np - 1) :
                  LET g == Triples(E.g[p + 1])  lo == Triples(E.l[p + 1])
                  IN \A x \in 1..D : LET P == PatchDim(m, ext, sb, p, x) IN
                       /\ SetOf(g[x]) = P /\ g[x][3] = Cardinality(P)
                       /\ SetOf(lo[x]) = {DLocal(m.dist[x], ext[x], i) : i \in P} /\ lo[x][3] = g[x][3]
Idx1 == /\ Is("idx") /\ UNCHANGED <<m, ext, me>>
        /\ InDims(ext, E.i) /\ <<E.sb, E.lo>> \notin seen
        /\ E.sb = Owner(m, ext, E.i) /\ E.lo = Local(m, ext, E.i) /\ E.lo2 = E.lo
        /\ InDims(SubExt(m, ext, E.sb), E.lo)
        /\ E.p = PatchOf(m, ext, E.i)
        /\ E.back = E.i /\ E.back2 = E.i
        /\ seen' = seen \cup {<<E.sb, E.lo>>}
Held == /\ Is("held") /\ UNCHANGED <<m, ext, me, seen>>
        /\ Cardinality(seen) = Prod(ext)     \* every index was placed, each in its own home
        /\ E.sb = [p \in 1..Len(E.sb) |-> SubHeldBy(m, p - 1)]
        /\ E.mine = SubHeldBy(m, me)
        /\ (IF E.mine = -1 THEN E.dom = <<>> /\ Prod(E.ext) = 0
            ELSE /\ E.ext = SubExt(m, ext, E.mine)
                 /\ [x \in 1..D |-> Triples(E.dom)[x][3]] = E.ext) = TRUE
\* a subview: its patches partition its index space; each index belongs to the parent index's owner
SubOwner(dd, i) == m.pset[Owner(m, ext, [x \in 1..D |-> dd[x][1] + i[x] * dd[x][2]]) + 1]
Subset == /\ Is("subset") /\ UNCHANGED <<m, ext, me, seen>>
          /\ Len(E.g) = Len(E.own) /\ Len(E.l) = Len(E.own)
          /\ LET dd == Triples(E.sub)
                 sx == [x \in 1..D |-> dd[x][3]]
                 G == [k \in 1..Len(E.g) |-> Triples(E.g[k])]
                 In(i, k) == \A x \in 1..D : i[x] \in SetOf(G[k][x])
             IN /\ \A q \in 0..(Prod(sx) - 1) :
                     LET i == Idx(sx, q)
                     IN /\ Cardinality({k \in 1..Len(G) : In(i, k)}) = 1
                        /\ E.own[CHOOSE k \in 1..Len(G) : In(i, k)] = SubOwner(dd, i)
                /\ \A k \in 1..Len(G) : \A x \in 1..D :
                     LET lo == Triples(E.l[k]) IN SetOf(G[k][x]) \subseteq 0..(sx[x] - 1) /\ lo[x][3] = G[k][x][3] /\ lo[x][3] = Cardinality(SetOf(lo[x]))
Next == Begin \/ MapQ \/ Same \/ Sub \/ Idx1 \/ Held \/ Subset
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
