---------------------------- MODULE ElementwiseMC -----------------------------
(* Why pointwise assignment does not depend on how an evaluator walks the elements: memory is one array of cells, views
   are index maps into it (offset and stride, either direction). An assignment dst = a op b is carried out one element
   at a time in any order, operands being read from memory when needed. If each operand is either the destination view
   itself or disjoint from it, the outcome is the pointwise one and nothing else changes. *)
EXTENDS Elementwise, FiniteSets, TLC
CONSTANTS Mem, N, Codes, Vals
VARIABLES mem, mem0, dst, a, b, todo, code
vars == <<mem, mem0, dst, a, b, todo, code>>
Cells == 0..(Mem - 1)
Views == {v \in {[o |-> o, s |-> s] : o \in Cells, s \in {1, 2, 0 - 1}} : \A i \in 0..(N - 1) : v.o + i * v.s \in Cells}
At(v, i) == v.o + i * v.s
Foot(v) == {At(v, i) : i \in 0..(N - 1)}
Init == /\ mem \in [Cells -> Vals] /\ mem0 = mem
        /\ dst \in Views /\ a \in {v \in Views : v = dst \/ Foot(v) \cap Foot(dst) = {}}
        /\ b \in {v \in Views : v = dst \/ Foot(v) \cap Foot(dst) = {}}
        /\ todo = 0..(N - 1) /\ code \in Codes
Value(m, i) == Arith(FALSE, code, m[At(dst, i)], m[At(a, i)], m[At(b, i)], 0, 1)
Next == \E i \in todo : /\ mem' = [mem EXCEPT ![At(dst, i)] = Value(mem, i)]
                        /\ todo' = todo \ {i} /\ UNCHANGED <<mem0, dst, a, b, code>>
Spec == Init /\ [][Next]_vars
Pointwise == todo = {} => \A i \in 0..(N - 1) : mem[At(dst, i)] = Value(mem0, i)
Frame == \A c \in Cells \ Foot(dst) : mem[c] = mem0[c]
\* identities the fused forms rely on
ASSUME \A x, y, z \in {<<p, q>> : p, q \in {0 - 1, 0, 2}} :
          /\ Arith(TRUE, 3, x, x, y, z, z) = Arith(TRUE, 12, x, x, y, z, z)
          /\ Arith(TRUE, 5, x, x, y, z, z) = Mul(TRUE, x, Add(TRUE, y, z))
          /\ Cx(91, x, x, x, x, x) = <<Magsq(x), 0>>
ASSUME \A x, y \in {0 - 3, 0 - 1, 0, 1, 2, 7} : /\ Bits(1, x, y) + Bits(2, x, y) = x + y
                                               /\ Bits(3, x, y) = Bits(2, x, y) - Bits(1, x, y)
ASSUME Trunc(0 - 7, 2) = 0 - 3 /\ Trunc(7, 0 - 2) = 0 - 3 /\ Trunc(0 - 7, 0 - 2) = 3
===============================================================================
