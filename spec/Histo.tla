-------------------------------- MODULE Histo --------------------------------
(* Histogram objects: n bins over [mn, mx): bin 1 below, bin n at or above, n-2 equal bins between. *)
EXTENDS Integers, Sequences, FiniteSets
\* v is inside interior bin k (2..n-1), by cross-multiplication: edge k-2 <= v < edge k-1, edge j = mn + j(mx-mn)/(n-2)
Inside(mn, mx, n, v, k) == /\ (k - 2) * (mx - mn) <= (v - mn) * (n - 2)
                           /\ (v - mn) * (n - 2) < (k - 1) * (mx - mn)
InBin(mn, mx, n, v, k) == CASE k = 1 -> v < mn
                            [] k = n -> v >= mx
                            [] OTHER -> Inside(mn, mx, n, v, k)
Bin(mn, mx, n, v) == CASE v < mn -> 1
                       [] v >= mx -> n
                       [] OTHER -> ((v - mn) * (n - 2)) \div (mx - mn) + 2
Zero(n) == [k \in 1..n |-> 0]
\* counts h after adding the values x
RECURSIVE AddTo(_, _, _, _, _, _)
AddTo(mn, mx, n, h, x, i) ==
  IF i > Len(x) THEN h ELSE AddTo(mn, mx, n, [h EXCEPT ![Bin(mn, mx, n, x[i])] = @ + 1], x, i + 1)
Total(h) == LET RECURSIVE S(_)
                S(i) == IF i = 0 THEN 0 ELSE h[i] + S(i - 1)
            IN  S(Len(h))
=============================================================================
