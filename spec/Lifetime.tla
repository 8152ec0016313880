------------------------------ MODULE Lifetime ------------------------------
(* Storage, the blocks ("roots") it belongs to, and the handles through which programs refer to them: views, subviews, components,
   expressions, counted block references, and objects with storage of their own.

   Stor[i] is [bytes, who, live], storage i - 1 as obtained from allocator who.  A root is [stor, need, who, val, own]: the storage it
   has (it may get it late), the bytes it needs (-1: not said), its allocator, the value of all of its elements (<<>>: not set yet), and
   own: an object that manages storage of its own as it likes.  A handle is [live, roots, t, whole]: what it denotes is the expression t
   over the values of the roots.

   The guarantee: a root's storage lives as long as a live handle denotes the root, and is given back, once and to where it came from,
   in the very step in which the last such handle goes.                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Eval(_, _)
Eval(R, t) ==
  CASE t[1] = "r" -> R[t[2]].val
    [] t[1] = "n" -> LET x == Eval(R, t[2]) IN <<-x[1], -x[2]>>
    [] t[1] = "m" -> LET x == Eval(R, t[2]) IN <<3 * x[1], 3 * x[2]>>
    [] t[1] = "a" -> LET x == Eval(R, t[2])  y == Eval(R, t[3]) IN <<x[1] + y[1], x[2] + y[2]>>
    [] t[1] = "R" -> <<Eval(R, t[2])[1], 0>>
    [] t[1] = "I" -> <<Eval(R, t[2])[2], 0>>
Value(cx, k) == IF cx THEN <<k, k + 7>> ELSE <<k, 0>>

Root(need, who, val, own) == [stor |-> {}, need |-> need, who |-> who, val |-> val, own |-> own]
Handle(roots, t, whole) == [live |-> TRUE, roots |-> roots, t |-> t, whole |-> whole]
Nothing == [live |-> FALSE, roots |-> {}, t |-> <<"r", 0>>, whole |-> FALSE]
Same == {"k", "T", "L", "V"}          \* derived views that denote all of what they are derived from
Part == {"s", "t", "r", "l", "d"}
Derived(h, how, o) ==
  CASE how \in Same -> Handle(h.roots, h.t, h.whole)
    [] how \in Part -> Handle(h.roots, h.t, FALSE)
    [] how \in {"n", "m", "R", "I"} -> Handle(h.roots, <<how, h.t>>, FALSE)
    [] how = "a" -> Handle(h.roots \cup o.roots, <<"a", h.t, o.t>>, FALSE)
Drop(h) == [h EXCEPT !.live = FALSE]

Reachable(Hs, i) == \E j \in 1 .. Len(Hs) : Hs[j].live /\ i \in Hs[j].roots
Live(St) == {i \in 1 .. Len(St) : St[i].live}
RECURSIVE SumBytes(_, _)
SumBytes(St, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN St[x].bytes + SumBytes(St, s \ {x})

(* A step in which al was obtained and fr given back (<<id, bytes, allocator>> each). *)
Obtained(St, al) == St \o [k \in 1 .. Len(al) |-> [bytes |-> al[k][2], who |-> al[k][3], live |-> TRUE]]
AllocOk(St, al) == \A k \in 1 .. Len(al) : al[k][1] = Len(St) + k - 1
\* nothing is given back twice, in another size, or to another allocator
FreeOk(St, fr) == /\ \A k \in 1 .. Len(fr) : /\ fr[k][1] + 1 \in Live(St)
                                             /\ St[fr[k][1] + 1].bytes = fr[k][2] /\ St[fr[k][1] + 1].who = fr[k][3]
                  /\ \A k, m \in 1 .. Len(fr) : k # m => fr[k][1] # fr[m][1]
Released(St, fr) == [i \in 1 .. Len(St) |-> IF \E k \in 1 .. Len(fr) : fr[k][1] = i - 1 THEN [St[i] EXCEPT !.live = FALSE] ELSE St[i]]
Step(St, al, fr) == Released(Obtained(St, al), fr)
StepOk(St, al, fr) == AllocOk(St, al) /\ FreeOk(Obtained(St, al), fr)
\* storage obtained and kept belongs to the root the step is about
Kept(St, al, fr) == {i \in Len(St) + 1 .. Len(St) + Len(al) : Step(St, al, fr)[i].live}
Given(R, i, kept, st) == IF i = 0 THEN R
                         ELSE [R EXCEPT ![i].stor = IF R[i].own THEN (@ \cup kept) \cap Live(st) ELSE @ \cup kept]
Guarantee(St, R, Hs) ==
  /\ \A i \in 1 .. Len(R) :
        IF Reachable(Hs, i)
        THEN R[i].own \/ (/\ R[i].stor \subseteq Live(St)
                          /\ R[i].stor # {} => /\ (R[i].need >= 0 => SumBytes(St, R[i].stor) = R[i].need)
                                               /\ \A s \in R[i].stor : St[s].who = R[i].who)
        ELSE R[i].stor \cap Live(St) = {}
  /\ Live(St) \subseteq UNION {R[i].stor : i \in 1 .. Len(R)}
=============================================================================
