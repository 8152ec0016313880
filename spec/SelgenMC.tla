------------------------------ MODULE SelgenMC -------------------------------
(* Two small arrays under every short history of manipulations, and the laws of the selection functions. *)
EXTENDS Selgen, TLC
CONSTANTS MaxN, MaxOps
VARIABLES v, w, o, n
vars == <<v, w, o, n>>
\* contents are tokens: 0.. for v, 100.. for w
Init == /\ o \in {<<r, c>> : r \in 1..MaxN, c \in 1..MaxN} /\ n = 0
        /\ v = [i \in 1..(o[1] * o[2]) |-> i] /\ w = [i \in 1..(o[1] * o[2]) |-> 100 + i]
N == o[1] * o[2]
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Next == /\ n < MaxOps /\ n' = n + 1 /\ o' = o
        /\ \/ v' = w /\ w' = v
           \/ v' = FreqSwap1(v) /\ w' = w
           \/ v' = FreqSwap2(v, o[1], o[2]) /\ w' = w
           \/ w' = FreqSwapRow(w, o[1], o[2]) /\ v' = v
           \/ w' = FreqSwapCol(w, o[1], o[2]) /\ v' = v
Spec == Init /\ [][Next]_vars
\* nothing is lost, duplicated or invented
Conserved == Bag(v \o w) = Bag([i \in 1..N |-> i] \o [i \in 1..N |-> 100 + i])
RowCol == FreqSwap2(v, o[1], o[2]) = FreqSwapCol(FreqSwapRow(v, o[1], o[2]), o[1], o[2])
EvenTwice == /\ (N % 2 = 0 => FreqSwap1(FreqSwap1(v)) = v)
             /\ ((o[1] % 2 = 0 /\ o[2] % 2 = 0) => FreqSwap2(FreqSwap2(v, o[1], o[2]), o[1], o[2]) = v)
DcMiddle == N > 0 => FreqSwap1(v)[N \div 2 + 1] = v[1]
Bools(k) == [1..k -> BOOLEAN]
ASSUME \A k \in 1..5 : \A s \in Bools(k), room \in 0..6 :
  LET old == [i \in 1..room |-> 0 - i]  r == IndexBool(s, old)
  IN /\ r[1] = Cardinality({i \in 1..k : s[i]})
     /\ \A i \in 1..room : IF i > r[1] THEN r[2][i] = 0 - i
                           ELSE s[r[2][i] + 1] /\ Cardinality({j \in 1..r[2][i] : s[j]}) = i - 1
ASSUME \A lo, hi, t \in 0..4 : lo <= hi => Clip(t, lo, hi, lo, hi) = IF t < lo THEN lo ELSE IF t > hi THEN hi ELSE t
ASSUME \A lo, mid, hi, t \in 0..4 : (lo <= mid /\ mid <= hi) =>
          (InvClip(t, lo, mid, hi, 0 - 1, 0 - 2) \in {0 - 1, 0 - 2}) = (t \in lo..hi)
ASSUME \A k \in 0..4, b \in 0..6 : \A s \in Bools(k) :
  LET f == First(b, LAMBDA i : s[i], k)
  IN /\ (f < k => s[f + 1] /\ f >= b /\ \A j \in b..(f - 1) : ~s[j + 1])
     /\ (f >= k => (f = IF b > k THEN b ELSE k) /\ \A j \in b..(k - 1) : ~s[j + 1])
ASSUME \A a, b, c \in 1..3 : \A p \in 0..(a * b * c - 1) : Lin(<<a, b, c>>, Unlin(<<a, b, c>>, p)) = p
ASSUME \A p \in [1..3 -> 0..2], q \in [1..3 -> 0..2] :
  LET x == Scatter(<<7, 8, 9>>, p, <<1, 2, 3>>, 1)
  IN \A j \in 0..2 : x[j + 1] = IF \E i \in 1..3 : p[i] = j THEN (CHOOSE i \in 1..3 : p[i] = j /\ \A k \in (i + 1)..3 : p[k] # j) + 6
                                ELSE j + 1
=============================================================================
