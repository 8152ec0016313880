-------------------------------- MODULE Reduce --------------------------------
(* Reductions over the elements of a view, given as a sequence in row-major order. Real elements are integers, complex
   ones pairs <<re, im>>. dims and positions as in Selgen. *)
EXTENDS Selgen
RECURSIVE FoldS(_, _, _, _)
FoldS(Op(_, _), acc, s, i) == IF i > Len(s) THEN acc ELSE FoldS(Op, Op(acc, s[i]), s, i + 1)
Plus(a, b) == a + b
Sum(s) == FoldS(Plus, 0, s, 1)
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSum(s) == FoldS(CAdd, <<0, 0>>, s, 1)
CSq(a) == <<a[1] * a[1] - a[2] * a[2], 2 * a[1] * a[2]>>
CMagsq(a) == a[1] * a[1] + a[2] * a[2]
Abs(a) == IF a < 0 THEN 0 - a ELSE a
\* C++ integer division truncates towards zero
Trunc(a, n) == IF a < 0 THEN 0 - ((0 - a) \div n) ELSE a \div n
\* bit operations on 16-bit two's complement numbers
M16 == 65536
RECURSIVE BitOp(_, _, _, _)
BitOp(and, a, b, k) == IF k = 0 THEN 0
                       ELSE LET x == a % 2  y == b % 2
                            IN (IF and THEN x * y ELSE (IF x + y > 0 THEN 1 ELSE 0)) + 2 * BitOp(and, a \div 2, b \div 2, k - 1)
And16(a, b) == BitOp(TRUE, a % M16, b % M16, 16)
Or16(a, b) == BitOp(FALSE, a % M16, b % M16, 16)
\* Sum-like reductions: value (sums), or value times the number of elements (means of non-integral elements)
Total(fn, t, s) ==
  CASE fn = "sumval"    -> (CASE t = "z" -> CSum(s) [] OTHER -> <<Sum(s)>>)
    [] fn = "sumsqval"  -> (CASE t = "z" -> CSum([i \in 1..Len(s) |-> CSq(s[i])]) [] OTHER -> <<Sum([i \in 1..Len(s) |-> s[i] * s[i]])>>)
    [] fn = "meanval"   -> (CASE t = "z" -> CSum(s) [] t = "i" -> <<Trunc(Sum(s), Len(s))>> [] OTHER -> <<Sum(s)>>)
    [] fn = "meansqval" -> (CASE t = "z" -> <<Sum([i \in 1..Len(s) |-> CMagsq(s[i])])>>
                              [] t = "i" -> <<Trunc(Sum([i \in 1..Len(s) |-> s[i] * s[i]]), Len(s))>>
                              [] OTHER -> <<Sum([i \in 1..Len(s) |-> s[i] * s[i]])>>)
AllTrue(t, s) == IF t = "b" THEN (IF \A i \in 1..Len(s) : s[i] = 1 THEN 1 ELSE 0) ELSE FoldS(And16, M16 - 1, s, 1)
AnyTrue(t, s) == IF t = "b" THEN (IF \E i \in 1..Len(s) : s[i] = 1 THEN 1 ELSE 0) ELSE FoldS(Or16, 0, s, 1)
\* what an index reduction compares; its value is the (exact) comparison key, the square for complex magnitudes
Key(fn, t, x) == CASE t = "z" -> CMagsq(x) [] fn \in {"maxmgval", "minmgval"} -> Abs(x) [] OTHER -> x
Better(fn, a, b) == IF fn \in {"maxval", "maxmgval", "maxmgsqval"} THEN a > b ELSE a < b
Extremum(fn, k) == k[CHOOSE i \in 1..Len(k) : \A j \in 1..Len(k) : ~Better(fn, k[j], k[i])]
\* rank of a position when the dimensions are traversed in the order ord (slowest first)
Rank(dims, ord, ix) == LET pd == [i \in 1..Len(dims) |-> dims[ord[i]]]  px == [i \in 1..Len(dims) |-> ix[ord[i]]] IN Lin(pd, px)
IdxOk(fn, dims, ord, k, val, ix) ==
  /\ Len(ix) = Len(dims) /\ \A d \in 1..Len(dims) : ix[d] \in 0..(dims[d] - 1)
  /\ val = Extremum(fn, k)
  /\ k[Lin(dims, ix) + 1] = val
  /\ (ord # <<>> => \A p \in 0..(Len(k) - 1) : k[p + 1] = val => Rank(dims, ord, ix) <= Rank(dims, ord, Unlin(dims, p))) = TRUE
===============================================================================
