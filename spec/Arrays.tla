------------------------------ MODULE Arrays -------------------------------
(* Index arithmetic shared by the specifications: arrays are sequences in    *)
(* row-major order of their dims; indices are 0-based sequences.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

\* multi-index of row-major position p (0-based)
Idx(dims, p) ==
  CASE Len(dims) = 0 -> <<>>
    [] Len(dims) = 1 -> <<p>>
    [] Len(dims) = 2 -> <<p \div dims[2], p % dims[2]>>
    [] Len(dims) = 3 -> <<p \div (dims[2] * dims[3]), (p \div dims[3]) % dims[2], p % dims[3]>>
\* row-major position of multi-index i
Pos(dims, i) ==
  CASE Len(dims) = 0 -> 0
    [] Len(dims) = 1 -> i[1]
    [] Len(dims) = 2 -> i[1] * dims[2] + i[2]
    [] Len(dims) = 3 -> (i[1] * dims[2] + i[2]) * dims[3] + i[3]
InDims(dims, i) == \A d \in 1..Len(dims) : 0 <= i[d] /\ i[d] < dims[d]

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* the n scalars of element p (0-based) of a flattened array
ElemAt(v, nc, p) == SubSeq(v, p * nc + 1, p * nc + nc)
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)   \* f(1) + ... + f(n)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
=============================================================================
