----------------------------- MODULE LifetimeMC -----------------------------
(* Reference counting, as the library does it, implements the guarantee of Lifetime: a refinement, with several threads.

   Every handle holds one counted reference per operand block (an expression of a and b two, even when a = b).  A thread makes handles
   (increments, by one atomic step each), and drops them: an atomic decrement per reference, and if that found a count of one, the deletion
   as a step of its own.  A handle can only be copied or read by threads that have it; handles are passed to other threads as copies.    *)
EXTENDS Lifetime
CONSTANTS Threads, MaxRoots, MaxHandles
VARIABLES count, refs, owner, gone, hist, pend
vars == <<count, refs, owner, gone, hist, pend>>
\* refs[h]: references of handle h still held (a sequence of roots); owner[h]; gone[h]: being dropped; hist: roots deleted, in order;
\* pend[t]: roots that thread t found to be no longer referred to and has to delete
Init == count = <<>> /\ refs = <<>> /\ owner = <<>> /\ gone = <<>> /\ hist = <<>> /\ pend = [t \in Threads |-> {}]
Has(t, h) == h \in 1 .. Len(refs) /\ owner[h] = t /\ ~gone[h]
New(t) == /\ Len(count) < MaxRoots /\ Len(refs) < MaxHandles
          /\ count' = Append(count, 1) /\ refs' = Append(refs, <<Len(count) + 1>>) /\ owner' = Append(owner, t) /\ gone' = Append(gone, FALSE)
          /\ UNCHANGED <<hist, pend>>
RECURSIVE Plus(_, _)
Plus(c, s) == IF s = <<>> THEN c ELSE Plus([c EXCEPT ![Head(s)] = @ + 1], Tail(s))
\* a copy, a subview (the same references) or an expression of two handles; for thread u
Derive(t, u, h, k) == /\ Len(refs) < MaxHandles /\ Has(t, h) /\ (k # 0 => Has(t, k))
                      /\ LET s == refs[h] \o (IF k = 0 THEN <<>> ELSE refs[k])
                         IN Len(s) <= 2 /\ count' = Plus(count, s) /\ refs' = Append(refs, s)
                      /\ owner' = Append(owner, u) /\ gone' = Append(gone, FALSE) /\ UNCHANGED <<hist, pend>>
StartDrop(t, h) == Has(t, h) /\ gone' = [gone EXCEPT ![h] = TRUE] /\ UNCHANGED <<count, refs, owner, hist, pend>>
Dec(t, h) == /\ h \in 1 .. Len(refs) /\ owner[h] = t /\ gone[h] /\ refs[h] # <<>>
             /\ LET r == Head(refs[h]) IN /\ count' = [count EXCEPT ![r] = @ - 1]
                                          /\ pend' = IF count[r] = 1 THEN [pend EXCEPT ![t] = @ \cup {r}] ELSE pend
             /\ refs' = [refs EXCEPT ![h] = Tail(@)] /\ UNCHANGED <<owner, gone, hist>>
Delete(t) == \E r \in pend[t] : hist' = Append(hist, r) /\ pend' = [pend EXCEPT ![t] = @ \ {r}] /\ UNCHANGED <<count, refs, owner, gone>>
Next == \E t \in Threads : \/ New(t)
                           \/ \E h \in 1 .. Len(refs) : StartDrop(t, h) \/ Dec(t, h) \/ \E u \in Threads, k \in 0 .. Len(refs) : Derive(t, u, h, k)
                           \/ Delete(t)
Spec == Init /\ [][Next]_vars
\* the abstraction
Deleted == {hist[i] : i \in 1 .. Len(hist)}
Quiet == (\A t \in Threads : pend[t] = {}) /\ \A h \in 1 .. Len(refs) : gone[h] => refs[h] = <<>>
StA == [r \in 1 .. Len(count) |-> [bytes |-> 8, who |-> 0, live |-> r \notin Deleted]]
RA == [r \in 1 .. Len(count) |-> [Root(8, 0, <<>>, FALSE) EXCEPT !.stor = {r}]]
HsA == [h \in 1 .. Len(refs) |-> [live |-> ~gone[h], roots |-> {refs[h][i] : i \in 1 .. Len(refs[h])}, t |-> <<"r", 1>>, whole |-> FALSE]]
Once == \A i, j \in 1 .. Len(hist) : i # j => hist[i] # hist[j]
Safe == \A h \in 1 .. Len(refs) : ~gone[h] => \A i \in 1 .. Len(refs[h]) : refs[h][i] \notin Deleted
Implements == Quiet => Guarantee(StA, RA, HsA)
Counts == \A r \in 1 .. Len(count) : count[r] >= 0
=============================================================================
