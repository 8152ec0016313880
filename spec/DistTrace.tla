----------------------------- MODULE DistTrace ------------------------------
(* Checks traces of SPMD programs (one merged event per operation, fields m / r listing what each
   rank observed) against the logical arrays of DistArrays.                                   *)
EXTENDS DistArrays, SequencesExt, Json, IOUtils
SG == INSTANCE Selgen
SumSeq(x) == FoldLeft(LAMBDA a, b : a + b, 0, x)
VARIABLES l, np, A
vars == <<l, np, A>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ np = 1 /\ A = <<>>
Begin == Is("begin") /\ np' = E.np /\ A' = <<>>
Arr == /\ Is("arr") /\ UNCHANGED np
       /\ A' = Append(A, MkArr(MkMap(E.kind, E.n, E.c, E.pset), E.ext, [k \in 1..Prod(E.ext) |-> LET x == E.base + E.step * (k - 1) IN IF E.T = "b" THEN x % 2 ELSE x]))
Asg == /\ Is("asg") /\ UNCHANGED np
       /\ LET s == A[E.s + 1]  d == A[E.d + 1]
              sv == View(s.ext, E.sf, E.sd)  dv == View(d.ext, E.df, E.dd)
          IN /\ Assert(sv.ext = dv.ext, "script: shapes differ")
             /\ A' = [A EXCEPT ![E.d + 1] = Put(d, dv, Get(s, sv))]
Obs == /\ Is("obs") /\ UNCHANGED <<np, A>>
       /\ Len(E.m) = np
       /\ \A p \in 1..np : E.m[p] = [k \in 1..Len(A) |-> LocalPart(A[k], p - 1)]
\* every message sent since the last quiet point was received
Quiet == /\ Is("quiet") /\ UNCHANGED <<np, A>>
         /\ \A p, q \in 1..np : E.r[p][1][q] = E.r[q][2][p]
(* C07: every rank sees one array.  r lists what each rank got. *)
AllRanks(x) == Len(E.r) = np /\ \A p \in 1..np : E.r[p] = x
DV == View(A[E.d + 1].ext, E.df, E.dd)
Src(k) == LET a == A[E.s[k] + 1] IN Get(a, View(a.ext, E.sf[k], E.sd[k]))
ElemOp == l <= Len(Trace) /\ E.op \in {"get", "sum", "sumsq", "max", "min", "all", "any"} /\ l' = l + 1
Elem == /\ ElemOp /\ UNCHANGED <<np, A>>
        /\ LET v == DV  x == Get(A[E.d + 1], v)  n == Len(x)
               S == {x[q] : q \in 1..n}
               best == IF E.op = "max" THEN CHOOSE y \in S : (\A z \in S : y >= z) ELSE CHOOSE y \in S : (\A z \in S : y <= z)
           IN CASE E.op = "get" -> AllRanks(<<x[Pos(v.ext, E.x) + 1]>>)
                [] E.op = "sum" -> AllRanks(<<SumSeq(x)>>)
                [] E.op = "sumsq" -> AllRanks(<<SumSeq([q \in 1..n |-> x[q] * x[q]])>>)
                [] E.op = "all" -> AllRanks(<<IF (\A q \in 1..n : x[q] # 0) THEN 1 ELSE 0>>)
                [] E.op = "any" -> AllRanks(<<IF (\E q \in 1..n : x[q] # 0) THEN 1 ELSE 0>>)
                [] OTHER -> /\ \A p \in 1..np : E.r[p] = E.r[1]
                            /\ (E.r[1][1] = best /\ x[Pos(v.ext, Tail(E.r[1])) + 1] = best) = TRUE
UpdOp == l <= Len(Trace) /\ E.op \in {"put", "fill", "lfill", "point", "add", "axpy", "acc", "neg", "mix", "copyl", "sadd", "clip", "user1", "user2", "user3"} /\ l' = l + 1
HomeSub(a, g) == CHOOSE sb \in 1..Len(a.home) : (\E q \in 1..Len(a.home[sb]) : a.home[sb][q] = g)
Upd == /\ UpdOp /\ UNCHANGED np
       /\ LET a == A[E.d + 1]  v == DV  n == Len(v.at)  old == Get(a, v)
              val(q) == CASE E.op = "put" -> IF q - 1 = Pos(v.ext, SubSeq(E.x, 1, Len(v.ext))) THEN E.x[Len(E.x)] ELSE old[q]
                          [] E.op = "fill" -> E.x[1]
                          [] E.op = "lfill" -> E.x[1] + HomeSub(a, v.at[q]) - 1
                          [] E.op = "point" -> 3 * old[q] + q - 1
                          [] E.op = "add" -> Src(1)[q] + Src(2)[q]
                          [] E.op = "axpy" -> Src(1)[q] * E.x[1] + Src(2)[q]
                          [] E.op = "acc" -> old[q] + Src(1)[q] * Src(2)[q]
                          [] E.op = "neg" -> 0 - Src(1)[q]
                          [] E.op = "mix" -> Src(1)[q] + Src(2)[q] * Src(3)[q] - E.x[1]
                          [] E.op = "sadd" -> old[q] + E.x[1]
                          [] E.op = "copyl" -> Src(1)[q]
                          [] E.op = "clip" -> SG!Clip(Src(1)[q], E.x[1], E.x[2], E.x[3], E.x[4])
                          [] E.op = "user1" -> 2 * Src(1)[q] + E.x[1]
                          [] E.op = "user2" -> Src(1)[q] + 2 * Src(2)[q] + E.x[1]
                          [] E.op = "user3" -> Src(1)[q] + 2 * Src(2)[q] - Src(3)[q] + E.x[1]
          IN A' = [A EXCEPT ![E.d + 1] = Put(a, v, [q \in 1..n |-> val(q)])]
(* the communicator *)
CommOp == l <= Len(Trace) /\ E.op \in {"bcast", "allred", "xchg"} /\ l' = l + 1
Comm == /\ CommOp /\ UNCHANGED <<np, A>>
        /\ Len(E.r) = np
        /\ CASE E.op = "bcast" -> (\A p \in 1..np : E.r[p] = [k \in 1..E.x[2] |-> E.x[3] + k - 1])
             [] E.op = "allred" -> LET c == SubSeq(E.x, 2, np + 1)
                                       S == {c[q] : q \in 1..np}
                                       res == CASE E.x[1] = 0 -> SumSeq(c)
                                                [] E.x[1] = 1 -> CHOOSE y \in S : (\A z \in S : y <= z)
                                                [] E.x[1] = 2 -> CHOOSE y \in S : (\A z \in S : y >= z)
                                                [] E.x[1] = 3 -> IF 0 \in S THEN 0 ELSE 1
                                                [] E.x[1] = 4 -> IF S = {0} THEN 0 ELSE 1
                                   IN \A p \in 1..np : E.r[p] = <<res>>
             [] E.op = "xchg" -> LET nm == Len(E.x) \div 3
                                     m == [k \in 1..nm |-> <<E.x[3 * k - 2], E.x[3 * k - 1], E.x[3 * k]>>]
                                     data(k) == [i \in 1..m[k][3] |-> 1000 + 100 * (k - 1) + i - 1]
                                     got(p) == FoldLeft(LAMBDA acc, k : IF m[k][2] = p THEN acc \o data(k) ELSE acc, <<>>, [k \in 1..nm |-> k])
                                 IN (\A p \in 1..np : E.r[p] = got(p - 1))
Next == Elem \/ Upd \/ Comm \/ Begin \/ Arr \/ Asg \/ Obs \/ Quiet
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
