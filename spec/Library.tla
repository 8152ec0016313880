------------------------------- MODULE Library -------------------------------
(* Library objects (vsipl): when the process-wide service (message passing) and the per-thread services
   (default allocator) come up and go down, as seen by the threads that create, use and destroy the objects.

   live[t]  objects of thread t that are completely constructed and not being destroyed
   pend[t]  the operation thread t has called and not returned from
   mpi      "none", "app" (initialised by the application), "lib" (by the library), "done"
   att      the library's send buffer is attached
   def[t]   the default allocator of thread t: 0 the library's, 1 the one the thread installed
   keep[t]  thread t holds views made in this period of use                                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES live, pend, mpi, att, def, keep
lvars == <<live, pend, mpi, att, def, keep>>

Threads0(T) == /\ live = [t \in T |-> 0] /\ pend = [t \in T |-> "none"]
               /\ mpi = "none" /\ att = FALSE /\ def = [t \in T |-> 0] /\ keep = [t \in T |-> FALSE]
NoneLive == \A t \in DOMAIN live : live[t] = 0
Up == mpi \in {"app", "lib"}

Call(t, w) == /\ pend[t] = "none"
              /\ (w \in {"use", "keep", "destroy"} => live[t] > 0)
              /\ pend' = [pend EXCEPT ![t] = w]
              /\ live' = IF w = "destroy" THEN [live EXCEPT ![t] = @ - 1] ELSE live
              /\ UNCHANGED <<mpi, att, def, keep>>
(* The library may bring message passing up only for a first object, and take it down only after a last one. *)
MpiInit(t) == /\ pend[t] = "create" /\ NoneLive /\ mpi = "none"
              /\ mpi' = "lib" /\ UNCHANGED <<live, pend, att, def, keep>>
Attach(t) == /\ pend[t] = "create" /\ NoneLive /\ Up /\ ~att
             /\ att' = TRUE /\ UNCHANGED <<live, pend, mpi, def, keep>>
Detach(t) == /\ pend[t] = "destroy" /\ NoneLive /\ Up /\ att
             /\ att' = FALSE /\ UNCHANGED <<live, pend, mpi, def, keep>>
MpiFini(t) == /\ pend[t] = "destroy" /\ NoneLive /\ mpi = "lib"
              /\ mpi' = "done" /\ att' = FALSE /\ UNCHANGED <<live, pend, def, keep>>
AppInit == mpi = "none" /\ NoneLive /\ mpi' = "app" /\ UNCHANGED <<live, pend, att, def, keep>>
AppFini == mpi = "app" /\ ~att /\ NoneLive /\ mpi' = "done" /\ UNCHANGED <<live, pend, att, def, keep>>
RetCreate(t) == /\ pend[t] = "create" /\ Up /\ att
                /\ pend' = [pend EXCEPT ![t] = "none"] /\ live' = [live EXCEPT ![t] = @ + 1]
                /\ UNCHANGED <<mpi, att, def, keep>>
Idle == \A u \in DOMAIN pend : pend[u] \notin {"create", "destroy"}
RetDestroy(t) == /\ pend[t] = "destroy"
                 /\ pend' = [pend EXCEPT ![t] = "none"]
                 /\ (NoneLive /\ (\A u \in DOMAIN pend : u = t \/ pend[u] \notin {"create", "destroy"})
                     => ~att /\ mpi \in {"app", "done"})
                 /\ UNCHANGED <<live, mpi, att, def, keep>>
RetUse(t) == /\ pend[t] \in {"use", "keep", "drop"} /\ Up /\ att /\ live[t] > 0
             /\ pend' = [pend EXCEPT ![t] = "none"]
             /\ keep' = [keep EXCEPT ![t] = CASE pend[t] = "keep" -> TRUE [] pend[t] = "drop" -> FALSE [] OTHER -> @]
             /\ UNCHANGED <<live, mpi, att, def>>
SetDef(t, d) == pend[t] = "none" /\ live[t] > 0 /\ def' = [def EXCEPT ![t] = d] /\ UNCHANGED <<live, pend, mpi, att, keep>>

(* What a user relies on. *)
Usable == ~NoneLive => Up /\ att
TakenDown == NoneLive /\ Idle => ~att /\ mpi # "lib"
=============================================================================
