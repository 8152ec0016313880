------------------------------ MODULE SolveMC ------------------------------
(* Two solver objects and a history: decompositions, copies by assignment and solves in any order.  Each object's answers are those of
   the last decomposition in its own line of history (lineage is recomputed from the history, not from the objects).  The definitions
   used by the trace checker are checked against others: definiteness against quadratic forms, regularity against kernels, least squares
   against minimisation, Q and singular vectors for matrices whose factors are exact.                                                *)
EXTENDS Solve
CONSTANTS Elems, MaxOps
VARIABLES S, H
vars == <<S, H>>
Els == {<<e, 0>> : e \in Elems} \cup {<<0, 1>>, <<1, -1>>}
RealEls == {<<e, 0>> : e \in Elems}
ElemsQ == {0, 1, 2}
ElemsA == {-1, 0, 1, 3}
M2(a, b, c, d) == Mat(2, 2, <<a, b, c, d>>)
Mats == {M2(a, b, c, d) : a, b \in Els, c, d \in RealEls}
Pool == {M2(<<2, 0>>, <<1, 0>>, <<1, 0>>, <<1, 0>>), M2(<<1, 0>>, <<0, 0>>, <<2, 0>>, <<0, 0>>), M2(<<1, 0>>, <<2, 1>>, <<2, -1>>, <<3, 0>>), M2(<<3, 0>>, <<1, 1>>, <<1, -1>>, <<1, 0>>)}
Vec2 == {Mat(2, 1, <<x, y>>) : x, y \in {<<e, f>> : e \in -1 .. 1, f \in -1 .. 1}}
Init == S \in {<<New(k, TRUE, 2, 2, p, 0), New(k, TRUE, 2, 2, 0, 0)>> : k \in {"l", "c"}, p \in {0, 1}} /\ H = <<>>
Next == /\ Len(H) < MaxOps
        /\ \/ \E i \in 1 .. 2, a \in Pool, ok \in BOOLEAN : /\ DecomposeOk(S[i], a, ok)
                                                        /\ S' = [S EXCEPT ![i] = Decomposed(S[i], a, ok, <<>>)]
                                                        /\ H' = Append(H, <<"dec", i, a, ok, S[i].p>>)
           \/ \E i, j \in 1 .. 2 : /\ CanAssign(S[i], S[j])
                                   /\ S' = [S EXCEPT ![i] = S[j]]
                                   /\ H' = Append(H, <<"assign", i, j>>)
Spec == Init /\ [][Next]_vars
\* the matrix that object i stands for after the first n events
RECURSIVE Line(_, _)
Line(i, n) == IF n = 0 THEN None
              ELSE LET h == H[n] IN CASE h[1] = "dec" /\ h[2] = i -> IF h[4] THEN Meant([k |-> S[1].k, p |-> h[5]], h[3]) ELSE None
                                      [] h[1] = "assign" /\ h[2] = i -> Line(h[3], n - 1)
                                      [] OTHER -> Line(i, n - 1)
Lineage == \A i \in 1 .. 2 : (IF S[i].ok THEN S[i].A ELSE None) = Line(i, Len(H))
Usable == \A i \in 1 .. 2 : S[i].ok => Det(S[i].A) # Zero /\ (S[i].k = "c" => Hermitian(S[i].A))

----
Quad(a, v) == Prod(Herm(v), Prod(a, v)).v[1]
NonZero == {v \in Vec2 : v.v # <<Zero, Zero>>}
Definitions ==
  \A a \in Mats :
    /\ Regular(a) = "yes" <=> (Det(a) # Zero /\ ~ZeroLine(a))
    /\ Regular(a) = "yes" => \A v \in NonZero : Prod(a, v).v # <<Zero, Zero>>
    /\ Det(Trans(a)) = Det(a) /\ Det(Herm(a)) = Conj(Det(a))
    /\ \A up \in BOOLEAN : LET h == Triangle(up, a) IN
          /\ Hermitian(h) /\ (PosDef(h) = "yes" => \A v \in NonZero : Quad(h, v)[1] > 0)
          /\ (PosDef(h) = "no" => \E v \in {Mat(2, 1, <<x, y>>) : x, y \in {<<e, f>> : e \in -3 .. 3, f \in -3 .. 3}} : v.v # <<Zero, Zero>> /\ Quad(h, v)[1] <= 0)
    \* a least-squares solution is at least as good as any other, and the covariance form is that of A^H A
    /\ \A x \in {Mat(2, 1, <<One, <<0, 1>>>>)} : LET b == Prod(a, x) IN LeastSquares(a, x, b, 1) /\ Covariance(a, x, Prod(Herm(a), b), 1)
    /\ (Det(a) # Zero => \A x \in Vec2 : \A y \in {Mat(2, 1, <<One, Zero>>)} : Solves(a, x, Prod(a, y), 1) => x = y)
    \* the exact factors of a signed permutation, and of its product with a triangle
    /\ LET P == M2(Zero, <<0, 1>>, <<-1, 0>>, Zero)
           R == M2(At(a, 1, 1), At(a, 1, 2), Zero, At(a, 2, 2))
       IN /\ IsQ(Times(10, P), Prod(P, R), 10)
          /\ ((At(a, 2, 1) # Zero /\ At(a, 1, 1) # Zero) => ~IsQ(Times(1000, P), Prod(P, a), 1000))
          /\ SolvesR(Times(10, P), Prod(P, R), "n", Times(10, Ident(2)), One, R, 10)
          /\ SolvesR(Times(10, P), Prod(P, R), "h", Times(10, Ident(2)), One, Herm(R), 10)
    /\ LET P == M2(Zero, <<0, 1>>, <<-1, 0>>, Zero)
           D == M2(<<3, 0>>, Zero, Zero, <<2, 0>>)
           X == Prod(P, D)
       IN /\ SingularValues(X, <<300, 200>>, 100) /\ ~SingularValues(X, <<300, 190>>, 100) /\ ~SingularValues(X, <<200, 300>>, 100)
          /\ OneSide(X, Times(1000, P), <<300, 200>>, 1000, 100)
          /\ BothSides(X, Times(1000, P), Times(1000, Ident(2)), <<300, 200>>, 1000, 100)
          /\ ~BothSides(X, Times(1000, P), Times(-1000, Ident(2)), <<300, 200>>, 1000, 100)
ASSUME Definitions
=============================================================================
