------------------------------- MODULE DdaTrace --------------------------------
(* Histories of data-access objects on one block, recorded from the library. Every event carries what the block holds
   (blk, read element by element) and, while an object is open, what its pointer shows (buf, read through pointer, strides
   and sizes). *)
EXTENDS Dda, TLC, Json, IOUtils
VARIABLES l, s
vars == <<l, s>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ s = Closed(<<>>)
Pol(x) == (IF x % 2 = 1 THEN {"in"} ELSE {}) \cup (IF (x \div 2) % 2 = 1 THEN {"out"} ELSE {}) \cup (IF (x \div 4) % 2 = 1 THEN {"copy"} ELSE {})
\* element k (from 0) of a block whose elements have w numbers
At(k, w) == [j \in 1..w |-> k * w + j]
Start == Is("begin") /\ UNCHANGED s
Begin == Is("ses") /\ s' = Closed(E.blk)
Open == /\ Is("open") /\ ~s.open
        /\ LET dir == E.cost = 0  pol == Pol(E.pol)
           IN /\ OpenOk(pol, dir)
              /\ s' = Opened(s, pol, dir)
              \* the run-time cost never exceeds the one promised at compile time, and the free function agrees
              /\ E.cost <= E.ct
              /\ E.sc >= 0
              /\ ("copy" \notin pol => ((E.sc = 0) <=> dir))
              \* a user-supplied buffer is used exactly when there is a copy
              /\ ((E.ub = 1) => ((E.own = 1) <=> ~dir))
              /\ E.sz = E.d
              /\ E.n = s.blk /\ Len(s.blk) = E.w * E.tot
              /\ LayoutOk(E.pk, E.al, E.ord, E.d, E.st, E.esz)
              /\ ((E.pk = "aligned" /\ E.ub = 0) => E.pal = 0)
        /\ Shows(s', E.buf) /\ s'.blk = E.blk
BW == Is("bw") /\ MayWrite(s) /\ s' = BufWrite(s, At(E.k, E.w), E.x) /\ Shows(s', E.buf) /\ s'.blk = E.blk
KW == Is("kw") /\ s.open /\ s' = BlkWrite(s, At(E.k, E.w), E.x) /\ Shows(s', E.buf) /\ s'.blk = E.blk
SIn == Is("si") /\ s.open /\ s' = SyncIn(s) /\ Shows(s', E.buf) /\ s'.blk = E.blk
SOut == Is("so") /\ s.open /\ SyncOutOk(s, E.blk) /\ s' = SyncOut(s, E.blk) /\ Shows(s', E.buf)
\* guard: bytes around a user-supplied buffer untouched
Close == Is("close") /\ s.open /\ SyncOutOk(s, E.blk) /\ E.guard /\ s' = Closed(E.blk)
Fin == Is("fin") /\ ~s.open /\ E.intact /\ UNCHANGED s
Next == Start \/ Begin \/ Open \/ BW \/ KW \/ SIn \/ SOut \/ Close \/ Fin
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
================================================================================
