------------------------------- MODULE Matvec -------------------------------
(* Exact matrix-vector algebra over Gaussian integers, and a store of matrices and vectors on which the functions act.

   An element is a pair <<re, im>>.  A matrix is [r, c, v], v by rows; a vector of n elements is [r |-> n, c |-> 0, v].   *)
EXTENDS Integers, Sequences, TLC

Zero == <<0, 0>>
One == <<1, 0>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Mul(x, y) == IF x[2] = 0 /\ y[2] = 0 THEN <<x[1] * y[1], 0>> ELSE <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x) == <<x[1], -x[2]>>
\* i^q
Quarter(q) == LET m == q % 4 IN CASE m = 0 -> <<1, 0>> [] m = 1 -> <<0, 1>> [] m = 2 -> <<-1, 0>> [] m = 3 -> <<0, -1>>
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN Zero ELSE Add(SumTo(f, n - 1), f[n])

Mat(r, c, v) == [r |-> r, c |-> c, v |-> TLCEval(v)]
Vctr(v) == [r |-> Len(v), c |-> 0, v |-> TLCEval(v)]
IsVec(a) == a.c = 0
\* element (i, j), from 1; of a vector with j = 1: element i
At(a, i, j) == a.v[(i - 1) * a.c + j]
Build(r, c, f(_, _)) == Mat(r, c, [p \in 1 .. r * c |-> f(((p - 1) \div c) + 1, ((p - 1) % c) + 1)])
Map1(a, f(_)) == [a EXCEPT !.v = TLCEval([p \in 1 .. Len(a.v) |-> f(a.v[p])])]
Map2(a, b, f(_, _)) == [a EXCEPT !.v = TLCEval([p \in 1 .. Len(a.v) |-> f(a.v[p], b.v[p])])]

Trans(a) == Build(a.c, a.r, LAMBDA i, j : At(a, j, i))
ConjM(a) == Map1(a, Conj)
Herm(a) == ConjM(Trans(a))
Plus(a, b) == Map2(a, b, Add)
Minus(a, b) == Map2(a, b, Sub)
Scale(k, a) == Map1(a, LAMBDA x : Mul(k, x))
Shift(a, k) == Map1(a, LAMBDA x : Add(x, k))

Prod(a, b) == Build(a.r, b.c, LAMBDA i, j : SumTo([k \in 1 .. a.c |-> Mul(At(a, i, k), At(b, k, j))], a.c))
ProdMV(a, x) == Vctr([i \in 1 .. a.r |-> SumTo([k \in 1 .. a.c |-> Mul(At(a, i, k), x.v[k])], a.c)])
ProdVM(x, a) == Vctr([j \in 1 .. a.c |-> SumTo([k \in 1 .. a.r |-> Mul(x.v[k], At(a, k, j))], a.r)])
Dot(x, y) == SumTo([i \in 1 .. x.r |-> Mul(x.v[i], y.v[i])], x.r)
\* the conjugate is that of the second operand
Outer(k, x, y) == Build(x.r, y.r, LAMBDA i, j : Mul(k, Mul(x.v[i], Conj(y.v[j]))))
KronV(k, v, w) == Build(w.r, v.r, LAMBDA i, j : Mul(k, Mul(w.v[i], v.v[j])))
KronM(k, v, w) == Build(v.r * w.r, v.c * w.c,
                        LAMBDA i, j : Mul(k, Mul(At(v, ((i - 1) \div w.r) + 1, ((j - 1) \div w.c) + 1), At(w, ((i - 1) % w.r) + 1, ((j - 1) % w.c) + 1))))
\* row (D = 0): every row is multiplied by the vector element by element; else every column
Vmmul(D, x, a) == Build(a.r, a.c, LAMBDA i, j : Mul(x.v[IF D = 0 THEN j ELSE i], At(a, i, j)))
CumV(x) == Vctr([i \in 1 .. x.r |-> SumTo([k \in 1 .. i |-> x.v[k]], i)])
\* D = 0: along the rows
CumM(D, a) == Build(a.r, a.c, LAMBDA i, j : IF D = 0 THEN SumTo([k \in 1 .. j |-> At(a, i, k)], j) ELSE SumTo([k \in 1 .. i |-> At(a, k, j)], i))
Modulate(x, nu, phi) == Vctr([i \in 1 .. x.r |-> Mul(x.v[i], Quarter((i - 1) * nu + phi))])
\* matrix operators: 0 none, 1 transpose, 2 Hermitian, 3 conjugate
Op(o, a) == CASE o = 0 -> a [] o = 1 -> Trans(a) [] o = 2 -> Herm(a) [] o = 3 -> ConjM(a)
Gemp(oa, ob, alpha, a, b, beta, c) == Plus(Scale(alpha, Prod(Op(oa, a), Op(ob, b))), Scale(beta, c))
Gems(oa, alpha, a, beta, c) == Plus(Scale(alpha, Op(oa, a)), Scale(beta, c))

(* The value that function f gives its destination, whose value was d, for operands a and b and parameters k. *)
Result(f, d, a, b, k) ==
  CASE f \in {"prod", "prod3", "prod4"} -> Prod(a, b)
    [] f = "prodt" -> Prod(a, Trans(b))
    [] f = "prodh" -> Prod(a, Herm(b))
    [] f = "prodj" -> Prod(a, ConjM(b))
    [] f = "psum" -> Minus(Prod(a, b), b)
    [] f = "pexp" -> Prod(Plus(a, a), Shift(b, <<-1, 0>>))
    [] f = "pprod" -> Prod(Prod(a, a), b)
    [] f \in {"mv", "mv3", "mv4"} -> ProdMV(a, b)
    [] f = "vm" -> ProdVM(b, a)
    [] f = "mvx" -> Plus(ProdMV(Trans(a), b), ProdVM(b, a))
    [] f = "vmmul0" -> Vmmul(0, b, a)
    [] f = "vmmul1" -> Vmmul(1, b, a)
    [] f = "vmmulx0" -> Minus(Vmmul(0, Shift(b, One), a), a)
    [] f = "vmmulx1" -> Minus(Vmmul(1, Shift(b, One), a), a)
    [] f = "outer" -> Outer(<<k[1], k[2]>>, a, b)
    [] f \in {"kronv", "kronc"} -> KronV(<<k[1], k[2]>>, a, b)
    [] f = "kronm" -> KronM(<<k[1], k[2]>>, a, b)
    [] f = "trans" -> Trans(a)
    [] f = "herm" -> Herm(a)
    [] f = "cumv" -> CumV(a)
    [] f = "cum0" -> CumM(0, a)
    [] f = "cum1" -> CumM(1, a)
    [] f = "modulate" -> Modulate(a, k[1], k[3])
    [] f \in {"gems0", "gems1", "gems2", "gems3"} ->
         Gems(CASE f = "gems0" -> 0 [] f = "gems1" -> 1 [] f = "gems2" -> 2 [] f = "gems3" -> 3, <<k[1], k[2]>>, a, <<k[3], k[4]>>, d)
    [] f = "gemp" -> Gemp(k[5], k[6], <<k[1], k[2]>>, a, b, <<k[3], k[4]>>, d)
\* what the functions with a scalar result give
Scalar(f, a, b, k) ==
  CASE f = "dot" -> Dot(a, b)
    [] f = "dotx" -> Dot(Shift(a, <<-1, 0>>), Plus(b, b))
    [] f \in {"cvjdot", "dotc"} -> Dot(a, ConjM(b))
    [] f = "cdot" -> Dot(ConjM(a), b)
ScalarFns == {"dot", "dotx", "cvjdot", "dotc", "cdot"}
=============================================================================
