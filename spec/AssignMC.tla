------------------------------ MODULE AssignMC ------------------------------
(* Distributed assignment as a message protocol.  Every processor runs, per round: post a send to
   each processor that needs elements of the subblock it is responsible for (the first holder of a
   replicated subblock is), copy what it already holds itself, receive from each responsible
   processor in map order, then wait for its sends.  Messages of a pair of processors are
   delivered in order; a send may complete at once (buffered) or only when matched (synchronous).
   Rounds follow each other without a barrier, the source changing in between.               *)
EXTENDS Maps
CONSTANTS N, EXT, ROUNDS, MAPS
VARIABLES L, R, sync, round, pc, todo, chan, mem, posted
vars == <<L, R, sync, round, pc, todo, chan, mem, posted>>
Procs == 0..(N - 1)
Ix == 0..(EXT - 1)
B(n, ps) == [dist |-> <<[k |-> "block", n |-> n, c |-> 0]>>, pset |-> ps, repl |-> FALSE]
C(n, c, ps) == [dist |-> <<[k |-> "cyclic", n |-> n, c |-> c]>>, pset |-> ps, repl |-> FALSE]
Rp(ps) == [dist |-> <<[k |-> "whole", n |-> 1, c |-> 0]>>, pset |-> ps, repl |-> TRUE]
\* processor sets: ordered, without repetition
PS(k) == {s \in [1..k -> Procs] : \A i, j \in 1..k : i # j => s[i] # s[j]}
SmallMaps == {B(1, <<0>>), B(N, [i \in 1..N |-> i - 1]), B(2, <<1, 0>>), C(2, 1, <<0, 1>>), Rp([i \in 1..N |-> i - 1]), Rp(<<1>>)}
AllMaps == UNION {{B(k, s) : s \in PS(k)} : k \in 1..N} \cup UNION {{C(k, c, s) : s \in PS(k), c \in 1..2} : k \in 2..N}
           \cup UNION {{Rp(s) : s \in PS(k)} : k \in 1..N}
MapSet == IF MAPS = "small" THEN SmallMaps ELSE AllMaps
Own(m, p) == LET sb == SubHeldBy(m, p) IN IF sb = -1 THEN {} ELSE {i \in Ix : Owner(m, <<EXT>>, <<i>>) = sb}
Resp(m, p) == LET sb == SubHeldBy(m, p) IN sb # -1 /\ Holders(m, sb)[1] = p     \* responsible for sending
Order(m) == m.pset                                                     \* sources and destinations in map order
Part(s, d) == IF s # d /\ Resp(R, s) THEN (Own(R, s) \cap Own(L, d)) \ Own(R, d) ELSE {}  \* what s sends to d
Dests(p) == SelectSeq(Order(L), LAMBDA q : Part(p, q) # {})
Srcs(p) == SelectSeq(Order(R), LAMBDA q : Part(q, p) # {})
Val(r, i) == <<r, i>>                                                     \* element i of the source in round r
Init == /\ L \in MapSet /\ R \in MapSet /\ sync \in BOOLEAN
        /\ round = [p \in Procs |-> 1] /\ pc = [p \in Procs |-> "send"]
        /\ todo = [p \in Procs |-> Dests(p)]
        /\ chan = [p \in Procs |-> [q \in Procs |-> <<>>]]
        /\ posted = [p \in Procs |-> {}]
        /\ mem = [p \in Procs |-> [i \in Own(L, p) |-> Val(0, i)]]
Goto(p, w, t) == pc' = [pc EXCEPT ![p] = w] /\ todo' = [todo EXCEPT ![p] = t]
Send(p) == /\ pc[p] = "send" /\ todo[p] # <<>>
           /\ LET q == Head(todo[p]) IN
                /\ chan' = [chan EXCEPT ![p][q] = Append(@, [i \in Part(p, q) |-> Val(round[p], i)])]
                /\ posted' = [posted EXCEPT ![p] = @ \cup {q}]
           /\ Goto(p, "send", Tail(todo[p]))
           /\ UNCHANGED <<L, R, sync, round, mem>>
Copy(p) == /\ pc[p] = "send" /\ todo[p] = <<>>
           /\ mem' = [mem EXCEPT ![p] = [i \in DOMAIN @ |-> IF i \in Own(R, p) THEN Val(round[p], i) ELSE @[i]]]
           /\ Goto(p, "recv", Srcs(p))
           /\ UNCHANGED <<L, R, sync, round, chan, posted>>
Recv(p) == /\ pc[p] = "recv" /\ todo[p] # <<>>
           /\ LET q == Head(todo[p]) IN
                /\ chan[q][p] # <<>>
                /\ mem' = [mem EXCEPT ![p] = [i \in DOMAIN @ |-> IF i \in DOMAIN Head(chan[q][p]) THEN Head(chan[q][p])[i] ELSE @[i]]]
                /\ chan' = [chan EXCEPT ![q][p] = Tail(@)]
           /\ Goto(p, "recv", Tail(todo[p]))
           /\ UNCHANGED <<L, R, sync, round, posted>>
Wait(p) == /\ pc[p] = "recv" /\ todo[p] = <<>>
           /\ (sync => \A q \in posted[p] : chan[p][q] = <<>>) = TRUE
           /\ posted' = [posted EXCEPT ![p] = {}]
           /\ IF round[p] < ROUNDS THEN round' = [round EXCEPT ![p] = @ + 1] /\ Goto(p, "send", Dests(p))
              ELSE UNCHANGED round /\ Goto(p, "done", <<>>)
           /\ UNCHANGED <<L, R, sync, chan, mem>>
Done == (\A p \in Procs : pc[p] = "done") /\ UNCHANGED vars
Next == (\E p \in Procs : Send(p) \/ Copy(p) \/ Recv(p) \/ Wait(p)) \/ Done
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A p \in Procs : WF_vars(Send(p) \/ Copy(p) \/ Recv(p) \/ Wait(p))
---------------------------------------------------------------------------
\* a processor that has received everything of a round holds exactly the source of that round
Correct == \A p \in Procs : (pc[p] = "recv" /\ todo[p] = <<>>) \/ pc[p] = "done"
                              => \A i \in Own(L, p) : mem[p][i] = Val(round[p], i)
\* nothing is left over
Clean == (\A p \in Procs : pc[p] = "done") => \A p, q \in Procs : chan[p][q] = <<>>
\* every element a processor needs reaches it exactly once: by copy or from one source
OneWay == \A d \in Procs : \A i \in Own(L, d) :
            Cardinality({s \in Procs : i \in Part(s, d)}) + (IF i \in Own(R, d) THEN 1 ELSE 0) = 1
\* at most ROUNDS messages wait between two processors (the buffering the protocol needs)
Bounded == \A p, q \in Procs : Len(chan[p][q]) <= (IF sync THEN 1 ELSE ROUNDS)
Completes == <>(\A p \in Procs : pc[p] = "done")
=============================================================================
