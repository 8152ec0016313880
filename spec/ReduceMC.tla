------------------------------- MODULE ReduceMC -------------------------------
(* A reduction as the library may carry it out: elements are consumed one at a time, in any order and into several
   partial accumulators, with early exit once the result is settled; extrema are tracked in the traversal order of the
   view's dimensions. The result must be the defining fold. *)
EXTENDS Reduce, TLC
CONSTANTS R, C, Vals, Parts
VARIABLES x, todo, acc, settled, ord, best, bestix, step
vars == <<x, todo, acc, settled, ord, best, bestix, step>>
N == R * C
Dims == <<R, C>>
Ords == {<<1, 2>>, <<2, 1>>}
Init == /\ x \in [1..N -> Vals] /\ todo = 1..N /\ acc = [p \in 1..Parts |-> 0] /\ settled = FALSE
        /\ ord \in Ords /\ best = x[1] /\ bestix = <<0, 0>> /\ step = 0
\* sum and any-true style accumulation: order and partition are free
Consume(i, p) == /\ todo' = todo \ {i} /\ acc' = [acc EXCEPT ![p] = @ + x[i]]
                 /\ settled' = (settled \/ x[i] = 0)
\* the position visited at step k of the ordered traversal
Visit(k) == CHOOSE q \in 0..(N - 1) : Rank(Dims, ord, Unlin(Dims, q)) = k
Scan == /\ step < N /\ step' = step + 1
        /\ LET q == Visit(step)
           IN IF x[q + 1] > best THEN best' = x[q + 1] /\ bestix' = Unlin(Dims, q) ELSE UNCHANGED <<best, bestix>>
Next == \/ \E i \in todo, p \in 1..Parts : Consume(i, p) /\ UNCHANGED <<x, ord, best, bestix, step>>
        \/ todo = {} /\ Scan /\ UNCHANGED <<x, todo, acc, settled, ord>>
Spec == Init /\ [][Next]_vars
SumRight == todo = {} => Sum(acc) = Sum(x)
EarlyExit == (settled => AllTrue("b", [i \in 1..N |-> IF x[i] = 0 THEN 0 ELSE 1]) = 0)
             /\ ((todo = {} /\ ~settled) => AllTrue("b", [i \in 1..N |-> IF x[i] = 0 THEN 0 ELSE 1]) = 1)
MaxRight == step = N => IdxOk("maxval", Dims, ord, x, best, bestix)
\* the row-major case is the plain "first" rule
FirstRule == (step = N /\ ord = <<1, 2>>) => \A q \in 0..(Lin(Dims, bestix) - 1) : x[q + 1] < best
ASSUME \A a, b \in {0, 1, 5, 6, 65535, 32768} : And16(a, b) + Or16(a, b) = a + b
ASSUME Trunc(0 - 7, 2) = 0 - 3 /\ Trunc(7, 2) = 3
===============================================================================
