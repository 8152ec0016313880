------------------------------ MODULE MatvecMC ------------------------------
(* The store as a state machine: any function may be applied to any operands at any time; only the destination changes.
   The identities of the algebra hold in every reachable state.                                                          *)
EXTENDS Matvec
CONSTANTS Elems, MaxOps, Lim
ElemsQ == {<<1, 0>>, <<0, -1>>}
ElemsA == {<<1, 0>>, <<0, -1>>, <<-2, 1>>}
VARIABLES A, B, C, x, y, n
vars == <<A, B, C, x, y, n>>
Els == {<<e[1], e[2]>> : e \in Elems}
Ms == {Mat(2, 2, v) : v \in [1 .. 4 -> Els]}
Vs == {Vctr(v) : v \in [1 .. 2 -> Els]}
Init == /\ A \in Ms /\ B \in {Mat(2, 2, <<<<1, 1>>, <<0, -1>>, <<2, 0>>, <<1, 0>>>>), Mat(2, 2, <<<<0, 1>>, <<1, 0>>, <<-1, 0>>, <<0, 0>>>>)}
        /\ C = Mat(2, 2, <<<<1, 0>>, <<0, 0>>, <<0, 2>>, <<-1, 0>>>>)
        /\ x \in Vs /\ y = Vctr(<<<<1, -1>>, <<0, 2>>>>) /\ n = 0
Small(m) == \A i \in 1 .. Len(m.v) : m.v[i][1] \in -Lim .. Lim /\ m.v[i][2] \in -Lim .. Lim
Fns2 == {"prod", "prodt", "prodh", "prodj", "pexp"}
Fns1 == {"trans", "herm", "cum0", "cum1", "gems1", "gems2"}
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E f \in Fns2 : C' = Result(f, C, A, B, <<>>) /\ UNCHANGED <<A, B, x, y>>
           \/ \E f \in Fns1 : B' = Result(f, B, C, C, <<1, 1, 0, 1>>) /\ UNCHANGED <<A, C, x, y>>
           \/ \E o \in 0 .. 3 : C' = Result("gemp", C, A, B, <<1, -1, 1, 0, o, 3 - o>>) /\ UNCHANGED <<A, B, x, y>>
           \/ \E f \in {"mv", "vm", "mvx"} : y' = Result(f, y, C, x, <<>>) /\ UNCHANGED <<A, B, C, x>>
           \/ y' = Result("modulate", y, x, x, <<1, 0, n, 0>>) /\ UNCHANGED <<A, B, C, x>>
        /\ Small(B') /\ Small(C') /\ Small(y')
Spec == Init /\ [][Next]_vars
Shape(m, r, c) == m.r = r /\ m.c = c /\ Len(m.v) = r * (IF c = 0 THEN 1 ELSE c)
TypeOK == Shape(A, 2, 2) /\ Shape(B, 2, 2) /\ Shape(C, 2, 2) /\ Shape(x, 2, 0) /\ Shape(y, 2, 0)
I2 == Mat(2, 2, <<One, Zero, Zero, One>>)
Diag(v) == Build(v.r, v.r, LAMBDA i, j : IF i = j THEN v.v[i] ELSE Zero)
Tri == Mat(2, 2, <<One, One, Zero, One>>)       \* cumulative sum along rows is a product with the upper triangle of ones
Col(v) == [v EXCEPT !.c = 1]
Products == /\ Prod(A, Prod(B, C)) = Prod(Prod(A, B), C)
            /\ Trans(Prod(A, B)) = Prod(Trans(B), Trans(A))
            /\ Herm(Prod(A, B)) = Prod(Herm(B), Herm(A))
            /\ Prod(A, I2) = A /\ Trans(Trans(A)) = A /\ Herm(Herm(A)) = A
            /\ Result("prodh", C, A, B, <<>>) = Prod(A, Herm(B)) /\ Result("prodj", C, A, B, <<>>) = ConjM(Prod(ConjM(A), B))
            /\ Gemp(0, 0, One, A, B, Zero, C) = Prod(A, B)
            /\ Gemp(2, 1, One, A, B, One, C) = Plus(Trans(Prod(B, ConjM(A))), C)
            /\ Gems(2, One, A, Zero, C) = Herm(A)
Vectors == /\ ProdMV(A, x) = ProdVM(x, Trans(A))
           /\ ProdMV(A, ProdMV(B, x)) = ProdMV(Prod(A, B), x)
           /\ Dot(ProdMV(A, x), ConjM(y)) = Dot(x, ConjM(ProdMV(Herm(A), y)))
           /\ Dot(x, ConjM(x))[1] >= 0 /\ Dot(x, ConjM(x))[2] = 0
           /\ Dot(x, ConjM(y)) = Conj(Dot(y, ConjM(x)))
           /\ Outer(One, x, y) = Prod(Col(x), Herm(Col(y)))
           /\ ProdMV(Outer(One, x, y), y) = [x EXCEPT !.v = [i \in 1 .. 2 |-> Mul(x.v[i], Dot(y, ConjM(y)))]]
           /\ Vmmul(1, x, A) = Prod(Diag(x), A) /\ Vmmul(0, x, A) = Prod(A, Diag(x))
           /\ KronV(One, x, y) = Trans(Outer(One, x, ConjM(y)))
Others == /\ Prod(KronM(One, A, B), KronM(One, B, C)) = KronM(One, Prod(A, B), Prod(B, C))
          /\ Trans(KronM(<<0, 1>>, A, B)) = KronM(<<0, 1>>, Trans(A), Trans(B))
          /\ CumM(0, A) = Prod(A, Tri) /\ CumM(1, A) = Prod(Trans(Tri), A)
          /\ CumV(x) = ProdVM(x, Tri)
          /\ Modulate(Modulate(x, 1, 2), 3, 2) = x
          /\ Dot(Modulate(x, 1, 3), ConjM(Modulate(y, 1, 3))) = Dot(x, ConjM(y))
Identities == Products /\ Vectors /\ Others
=============================================================================
