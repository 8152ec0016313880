---------------------------- MODULE SharedArrayMC ----------------------------
(* Why element-wise access to a distributed array is access to one shared array: every process runs
   the same program, at its own pace.  put is executed by the owners only, get is a broadcast by the
   first owner, copy sends the element to the owners of the destination.  Whatever the pace, every
   process sees the results of the program run on one array.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NP, N, L
P == 0..NP - 1
I == 0..N - 1
V == {1, 2}
Ops == [k : {"put"}, i : I, v : V] \cup [k : {"get"}, i : I, v : {0}] \cup {o \in [k : {"copy"}, i : I, v : I] : o.i # o.v}
       \cup [k : {"any"}, i : {0}, v : V]          \* any element equal to v? (stops at the first)
Owners == {o \in [I -> SUBSET P] : \A i \in I : o[i] # {}}
VARIABLES prog, own, pc, sub, loc, msg, res
vars == <<prog, own, pc, sub, loc, msg, res>>
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the same program on one array: <<array, results>>
RECURSIVE Run(_, _, _, _)
Run(p, k, a, r) ==
  IF k > Len(p) THEN <<a, r>>
  ELSE LET o == p[k] IN
       CASE o.k = "put" -> Run(p, k + 1, [a EXCEPT ![o.i] = o.v], r)
         [] o.k = "get" -> Run(p, k + 1, a, Append(r, a[o.i]))
         [] o.k = "copy" -> Run(p, k + 1, [a EXCEPT ![o.i] = a[o.v]], r)
         [] o.k = "any" -> Run(p, k + 1, a, Append(r, IF \E i \in I : a[i] = o.v THEN 1 ELSE 0))
A0 == [i \in I |-> 0]
Init == /\ prog \in [1..L -> Ops] /\ own \in Owners
        /\ pc = [p \in P |-> 1] /\ sub = [p \in P |-> 0] /\ res = [p \in P |-> <<>>]
        /\ loc = [p \in P |-> A0] /\ msg = {}
Adv(p) == pc' = [pc EXCEPT ![p] = @ + 1] /\ sub' = [sub EXCEPT ![p] = 0]
\* the value process p obtains for element i in step <<k, s>> of its program (a broadcast)
Bcast(p, i, tag, x) == LET root == MinOf(own[i]) IN
  IF p = root THEN x = loc[p][i] /\ msg' = msg \cup {<<tag, x>>}
  ELSE <<tag, x>> \in msg /\ msg' = msg
Step(p) == pc[p] <= L /\ LET o == prog[pc[p]] IN
  \/ o.k = "put" /\ loc' = [loc EXCEPT ![p][o.i] = IF p \in own[o.i] THEN o.v ELSE @] /\ Adv(p) /\ UNCHANGED <<msg, res>>
  \/ o.k = "get" /\ \E x \in 0..2 : Bcast(p, o.i, <<pc[p], 0>>, x) /\ res' = [res EXCEPT ![p] = Append(@, x)] /\ Adv(p) /\ UNCHANGED loc
  \/ /\ o.k = "copy" /\ Adv(p) /\ UNCHANGED res
     /\ IF p \in own[o.i] THEN \E x \in 0..2 : Bcast(p, o.v, <<pc[p], 0>>, x) /\ loc' = [loc EXCEPT ![p][o.i] = x]
        ELSE IF p = MinOf(own[o.v]) THEN Bcast(p, o.v, <<pc[p], 0>>, loc[p][o.v]) /\ loc' = loc
        ELSE UNCHANGED <<loc, msg>>
  \/ /\ o.k = "any" /\ UNCHANGED loc
     /\ \E x \in 0..2 : Bcast(p, sub[p], <<pc[p], sub[p]>>, x) /\
          IF x = o.v \/ sub[p] = N - 1 THEN res' = [res EXCEPT ![p] = Append(@, IF x = o.v THEN 1 ELSE 0)] /\ Adv(p)
          ELSE sub' = [sub EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, res>>
  
Done == \A p \in P : pc[p] > L
Next == (\E p \in P : Step(p)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
UNCH == UNCHANGED <<prog, own>>
Next2 == Next /\ UNCH
Spec2 == Init /\ [][Next2]_vars
Shared == LET s == Run(prog, 1, A0, <<>>) IN
  /\ \A p \in P : res[p] = SubSeq(s[2], 1, Len(res[p]))
  /\ Done => \A p \in P : Len(res[p]) = Len(s[2]) /\ \A i \in I : p \in own[i] => loc[p][i] = s[1][i]
\* non-owners never hold anything
Own == \A p \in P, i \in I : p \notin own[i] => loc[p][i] = 0
==============================================================================
