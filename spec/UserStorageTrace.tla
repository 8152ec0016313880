------------------------- MODULE UserStorageTrace --------------------------
EXTENDS UserStorage, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
TInit == /\ l = 1 /\ blk = Unbound /\ mem = <<>> /\ val = <<Undef>> /\ shad = <<>>
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
BOf(e) == [dims |-> e.dims, strides |-> e.strides, nc |-> e.nc, total |-> e.total,
           fmt |-> e.fmt, ids |-> e.ids, adm |-> e.adm]
UFmt == E.ufmt = (IF HasUser(blk') THEN blk'.fmt ELSE "none")
TCreate == /\ Is("begin")
           /\ E.adm = (E.fmt = "none")
           /\ Create(BOf(E), E.mem,
                     IF E.init = <<>> THEN [s \in 1..(Prod(E.dims) * E.nc) |-> Undef]
                     ELSE [s \in 1..(Prod(E.dims) * E.nc) |-> E.init[((s-1) % E.nc) + 1]])
           /\ UFmt
TAdmit == Is("admit") /\ E.adm = TRUE /\ Admit(E.upd, E.chg) /\ UFmt
TRelease == /\ Is("release") /\ Release(E.upd, E.chg, E.adm) /\ UFmt
            /\ (E.ids # <<>> => PointersOk(E.ids))
TPut == Is("put") /\ Put(E.p, E.v, E.chg)
TAssign == Is("assign") /\ AssignAll(E.v, E.chg)
TRead == Is("read") /\ Read(E.v, E.chg)
TUser == Is("uwrite") /\ UserWrite(E.id, E.pos, E.v, E.chg)
TRebind == Is("rebind") /\ Rebind(BOf(E), E.chg) /\ UFmt
TFind == Is("find") /\ Find(E.ids, E.chg)
TNext == TCreate \/ TAdmit \/ TRelease \/ TPut \/ TAssign \/ TRead \/ TUser \/ TRebind \/ TFind
TSpec == TInit /\ [][TNext]_<<usvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
