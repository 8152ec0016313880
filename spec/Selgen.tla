------------------------------- MODULE Selgen --------------------------------
(* Selection, generation and manipulation functions. Sequences are the elements of a view in row-major order;
   positions and sizes as in the library (from 0); dims is <<n>>, <<r, c>> or <<a, b, c>>. *)
EXTENDS Integers, Sequences, FiniteSets
Ramp(a, b, n) == [i \in 1..n |-> a + (i - 1) * b]
\* smallest index >= begin whose pair satisfies Q, else the size; begin itself when beyond the end
First(begin, Q(_), n) ==
  IF begin > n THEN begin
  ELSE LET S == {i \in begin..(n - 1) : Q(i + 1)} IN IF S = {} THEN n ELSE CHOOSE i \in S : \A j \in S : i <= j
TruePos(s) == LET RECURSIVE F(_)
                  F(i) == IF i > Len(s) THEN <<>> ELSE IF s[i] THEN <<i - 1>> \o F(i + 1) ELSE F(i + 1)
              IN F(1)
\* linear row-major positions (from 0) <-> index components
Lin(dims, ix) == CASE Len(dims) = 1 -> ix[1]
                   [] Len(dims) = 2 -> ix[1] * dims[2] + ix[2]
                   [] OTHER -> (ix[1] * dims[2] + ix[2]) * dims[3] + ix[3]
Unlin(dims, p) == CASE Len(dims) = 1 -> <<p>>
                    [] Len(dims) = 2 -> <<p \div dims[2], p % dims[2]>>
                    [] OTHER -> <<p \div (dims[2] * dims[3]), (p \div dims[3]) % dims[2], p % dims[3]>>
\* the first |old| true positions replace the front of old, the rest stays
IndexBool(s, old) == LET t == TruePos(s)
                     IN <<Len(t), [i \in 1..Len(old) |-> IF i <= Len(t) THEN t[i] ELSE old[i]]>>
Gather(s, pos) == [i \in 1..Len(pos) |-> s[pos[i] + 1]]
RECURSIVE Scatter(_, _, _, _)
Scatter(src, pos, dst, i) == IF i > Len(pos) THEN dst ELSE Scatter(src, pos, [dst EXCEPT ![pos[i] + 1] = src[i]], i + 1)
Clip(t, lo, hi, lv, hv) == IF t <= lo THEN lv ELSE IF t < hi THEN t ELSE hv
InvClip(t, lo, mid, hi, lv, hv) == IF t < lo THEN t ELSE IF t < mid THEN lv ELSE IF t <= hi THEN hv ELSE t
\* element k of a frequency swapped axis of size n comes from position Fs(n, k)
Fs(n, k) == (k + (n + 1) \div 2) % n
FreqSwap1(s) == [i \in 1..Len(s) |-> s[Fs(Len(s), i - 1) + 1]]
FreqSwap2(s, r, c) == [i \in 1..Len(s) |-> s[Fs(r, (i - 1) \div c) * c + Fs(c, (i - 1) % c) + 1]]
FreqSwapRow(s, r, c) == [i \in 1..Len(s) |-> s[((i - 1) \div c) * c + Fs(c, (i - 1) % c) + 1]]
FreqSwapCol(s, r, c) == [i \in 1..Len(s) |-> s[Fs(r, (i - 1) \div c) * c + ((i - 1) % c) + 1]]
=============================================================================
