------------------------------ MODULE LibraryMC ------------------------------
(* The library's algorithm - a global and per-thread counters, a lock, message passing brought up by whoever
   counts to one - run by several threads through the atomic steps of the code. Every step that concerns
   message passing must be one Library allows; with LOCKED = FALSE (decisions taken outside the lock) it is not. *)
EXTENDS Library
CONSTANTS T, MaxOps, APP, LOCKED
VARIABLES pc, gc, tc, lock, buf, seen, ops, ok
vars == <<lvars, pc, gc, tc, lock, buf, seen, ops, ok>>
MCInit == /\ Threads0(T) /\ pc = [t \in T |-> "idle"] /\ gc = 0 /\ tc = [t \in T |-> 0] /\ lock = "free"
          /\ buf = FALSE /\ seen = [t \in T |-> 0] /\ ops = 0 /\ ok = TRUE
go(t, p) == pc' = [pc EXCEPT ![t] = p]
(* Take an abstract step A if it is allowed; otherwise record the misuse and stop. *)
Abs(A) == IF ENABLED A THEN A /\ ok' = ok ELSE UNCHANGED lvars /\ ok' = FALSE
Quiet == UNCHANGED lvars /\ ok' = ok
CanCreate == mpi # "done"     \* message passing that the library has finalised cannot be used again
Last(t) == live[t] = 1 /\ \A u \in T \ {t} : live[u] = 0
Start == \E t \in T :
  /\ ok /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
  /\ \/ CanCreate /\ (APP \/ \A u \in T : pend[u] # "destroy") /\ Abs(Call(t, "create")) /\ go(t, "c1")
     \/ live[t] > 0 /\ (APP \/ \A u \in T : pend[u] # "create") /\ Abs(Call(t, "destroy")) /\ go(t, "d1")
  /\ UNCHANGED <<gc, tc, lock, buf, seen>>
Enter == \E t \in T :
  /\ ok /\ pc[t] \in {"c1", "d1"} /\ lock = "free" /\ lock' = t
  /\ go(t, IF pc[t] = "c1" THEN "c2" ELSE "d2") /\ Quiet /\ UNCHANGED <<gc, tc, buf, seen, ops>>
Count == \E t \in T :
  /\ ok /\ pc[t] \in {"c2", "d2"}
  /\ gc' = gc + (IF pc[t] = "c2" THEN 1 ELSE -1) /\ tc' = [tc EXCEPT ![t] = @ + (IF pc[t] = "c2" THEN 1 ELSE -1)]
  /\ lock' = IF LOCKED THEN lock ELSE "free"
  /\ go(t, CASE pc[t] = "c2" /\ tc[t] > 0 -> "r" [] pc[t] = "c2" -> "c3" [] pc[t] = "d2" /\ tc[t] > 1 -> "r" [] OTHER -> "d3")
  /\ Quiet /\ UNCHANGED <<buf, seen, ops>>
ReadBuf == \E t \in T :     \* the first thread allocates the buffer; the others rely on what it does
  /\ ok /\ pc[t] = "c3" /\ go(t, IF buf THEN "r" ELSE "c4") /\ buf' = TRUE /\ Quiet /\ UNCHANGED <<gc, tc, lock, seen, ops>>
DoInit == \E t \in T :
  /\ ok /\ pc[t] = "c4" /\ go(t, "c5")
  /\ (IF mpi = "none" THEN Abs(MpiInit(t)) ELSE Quiet) /\ UNCHANGED <<gc, tc, lock, buf, seen, ops>>
DoAttach == \E t \in T :
  /\ ok /\ pc[t] = "c5" /\ go(t, "r") /\ Abs(Attach(t)) /\ UNCHANGED <<gc, tc, lock, buf, seen, ops>>
ReadGc == \E t \in T :
  /\ ok /\ pc[t] = "d3" /\ go(t, IF gc = 0 THEN "d4" ELSE "r") /\ Quiet /\ UNCHANGED <<gc, tc, lock, buf, seen, ops>>
DoDetach == \E t \in T :
  /\ ok /\ pc[t] = "d4" /\ go(t, "d5") /\ Abs(Detach(t)) /\ UNCHANGED <<gc, tc, lock, buf, seen, ops>>
DoFini == \E t \in T :
  /\ ok /\ pc[t] = "d5" /\ go(t, "r") /\ buf' = FALSE
  /\ (IF mpi = "lib" THEN Abs(MpiFini(t)) ELSE Quiet) /\ UNCHANGED <<gc, tc, lock, seen, ops>>
Return == \E t \in T :
  /\ ok /\ pc[t] = "r" /\ go(t, "r2") /\ lock' = (IF lock = t THEN "free" ELSE lock) /\ Quiet /\ UNCHANGED <<gc, tc, buf, seen, ops>>
Ret == \E t \in T :
  /\ ok /\ pc[t] = "r2" /\ go(t, "idle")
  /\ (IF pend[t] = "create" THEN Abs(RetCreate(t)) ELSE Abs(RetDestroy(t)))
  /\ UNCHANGED <<gc, tc, lock, buf, seen, ops>>
App == ok /\ APP /\ mpi = "none" /\ Idle /\ AppInit /\ UNCHANGED <<pc, gc, tc, lock, buf, seen, ops, ok>>
MCNext == (IF APP /\ mpi = "none" THEN App ELSE Start \/ Enter \/ Count \/ ReadBuf \/ DoInit \/ DoAttach \/ ReadGc \/ DoDetach \/ DoFini \/ Return \/ Ret)
MCSpec == MCInit /\ [][MCNext]_vars
Allowed == ok
CountRight == lock = "free" => gc >= Cardinality({t \in T : live[t] > 0})
Inv == Allowed /\ (LOCKED => Usable /\ TakenDown)
=============================================================================
