----------------------------- MODULE SolveTrace -----------------------------
(* Checks traces of solver objects and of the function forms. *)
EXTENDS Solve, Json, IOUtils
VARIABLES l, S
vars == <<l, S>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Init == l = 1 /\ S = <<>>
Pairs(cx, x) == TLCEval(IF cx THEN [i \in 1 .. Len(x) \div 2 |-> <<x[2 * i - 1], x[2 * i]>>] ELSE [i \in 1 .. Len(x) |-> <<x[i], 0>>])
Arg(cx) == [r |-> E.br, c |-> E.bc, v |-> Pairs(cx, E.b)]
Res(cx) == [r |-> E.xr, c |-> E.xc, v |-> Pairs(cx, E.x)]
Begin == Is("begin") /\ S' = <<>>
InfoOk(s) == (CASE s.k = "l" -> E.len = s.n
                [] s.k = "c" -> E.len = s.n /\ E.up = (s.p = 1)
                [] s.k = "q" -> E.len = s.n /\ E.rows = s.m /\ E.st = s.p
                [] s.k = "s" -> E.len = s.n /\ E.rows = s.m /\ E.st = 3 * s.p + s.q) = TRUE
Mk == Is("mk") /\ LET s == New(E.k, E.cx, E.m, E.n, E.p, E.q) IN InfoOk(s) /\ S' = Append(S, s)
Copy == Is("copy") /\ S[E.s + 1].k # "-" /\ InfoOk(S[E.s + 1]) /\ S' = Append(S, S[E.s + 1])
Assign == Is("assign") /\ CanAssign(S[E.s + 1], S[E.from + 1]) /\ InfoOk(S[E.from + 1]) /\ S' = [S EXCEPT ![E.s + 1] = S[E.from + 1]]
Free == Is("free") /\ S[E.s + 1].k # "-" /\ S' = [S EXCEPT ![E.s + 1] = Gone]
\* singular values are those of the matrix: other solvers' of the same matrix are the same up to rounding
SameValues(a, sv) == \A i \in 1 .. Len(S) : (S[i].k = "s" => (S[i].A = a => \A j \in 1 .. Len(sv) : Abs(S[i].sv[j] - sv[j]) <= 2)) = TRUE
Dec == /\ Is("dec") /\ E.intact
       /\ LET s == S[E.s + 1]
              a == Arg(s.cx)
          IN /\ DecomposeOk(s, a, E.ok) = TRUE
             /\ (s.k = "s" => SingularValues(a, E.x, E.num) /\ SameValues(a, E.x)) = TRUE
             /\ S' = [S EXCEPT ![E.s + 1] = Decomposed(s, a, E.ok, IF s.k = "s" THEN E.x ELSE <<>>)]
Fixed == 1000
FixedSv == 100
Observe(field, i, x) == S' = IF field = "Q" THEN [S EXCEPT ![i].Q = x] ELSE [S EXCEPT ![i].V = x]
FirstFactor(s, x) == CASE E.f = "prodq" -> E.tr = "n" /\ E.side = "l" /\ Arg(s.cx) = Ident(FactorSize(s)[2]) /\ <<x.r, x.c>> = FactorSize(s) /\ IsQ(x, s.A, Fixed)
                       [] E.f = "u" -> E.k = <<0, FactorSize(s)[2] - 1>> /\ <<x.r, x.c>> = FactorSize(s) /\ OneSide(s.A, x, s.sv, Fixed, FixedSv)
                                       /\ (s.V # None => BothSides(s.A, x, s.V, s.sv, Fixed, FixedSv))
                       [] E.f = "v" -> E.k = <<0, VSize(s)[2] - 1>> /\ <<x.r, x.c>> = VSize(s) /\ OneSide(Herm(s.A), x, s.sv, Fixed, FixedSv)
                                       /\ (s.Q # None => BothSides(s.A, s.Q, x, s.sv, Fixed, FixedSv))
AlphaOf(s) == IF s.cx THEN <<E.k[1], E.k[2]>> ELSE <<E.k[1], 0>>
Answer(s, b, x) ==
  CASE E.f = "solve" -> Solves(IF s.k = "c" THEN s.A ELSE OpOf(E.tr, s.A), x, b, E.num)
    [] E.f = "lsq" -> LeastSquares(s.A, x, b, E.num)
    [] E.f = "cov" -> Covariance(s.A, x, b, E.num)
    [] E.f = "cov2" -> Covariance(s.A, x, Scale(AlphaOf(s), b), E.num)
    [] E.f = "rsol" -> SolvesR(s.Q, s.A, E.tr, x, AlphaOf(s), b, Fixed)
    [] E.f \in {"prodq", "produ"} -> IsFactorProduct(s.Q, E.side, E.tr, b, x)
    [] E.f = "prodv" -> IsFactorProduct(s.V, E.side, E.tr, b, x)
    [] E.f = "u" -> Near(x, Cols(s.Q, E.k[1] + 1, E.k[2] + 1), 1)
    [] E.f = "v" -> Near(x, Cols(s.V, E.k[1] + 1, E.k[2] + 1), 1)
Call == /\ Is("call") /\ E.intact /\ E.ok
        /\ LET s == S[E.s + 1]
               b == Arg(s.cx)
               x == Res(s.cx)
               field == IF E.f \in {"v", "prodv"} THEN "V" ELSE "Q"
               first == E.f \in {"prodq", "produ", "u", "v", "prodv", "rsol"} /\ (IF field = "V" THEN s.V ELSE s.Q) = None
           IN /\ s.ok /\ Len(x.v) = E.xr * E.xc
              /\ (IF first THEN FirstFactor(s, x) ELSE Answer(s, b, x)) = TRUE
              /\ IF first THEN Observe(field, E.s + 1, x) ELSE UNCHANGED S
\* the function forms; the matrix (by rows), or the first row of the Toeplitz matrix, is in k
FnOk(a, b, x) ==
  CASE E.f = "toep" -> LET T == Toeplitz(Pairs(E.cx, E.k)) IN /\ Agrees(E.ok, PosDef(T))
                                                               /\ E.ok => Solves(T, x, b, E.num)
    [] E.f = "llsq" -> E.ok /\ LeastSquares(a, x, b, E.num)
    [] E.f = "cov" -> E.ok /\ Covariance(a, x, b, E.num)
Fn == /\ Is("fn") /\ E.intact
      /\ LET n == IF E.f = "llsq" THEN E.xr ELSE E.br
             v == Pairs(E.cx, E.k)
         IN FnOk([r |-> Len(v) \div n, c |-> n, v |-> v], Arg(E.cx), Res(E.cx)) = TRUE
      /\ UNCHANGED S
Next == Begin \/ Mk \/ Copy \/ Assign \/ Free \/ Dec \/ Call \/ Fn
TSpec == Init /\ [][Next]_vars
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
