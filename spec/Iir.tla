-------------------------------- MODULE Iir ---------------------------------
(* Cascaded second-order sections.  Each section is the recurrence
     w(n) = x(n) - a1 w(n-1) - a2 w(n-2),  y(n) = b0 w(n) + b1 w(n-1) + b2 w(n-2)
   (direct form II); the output of one section is the input of the next.  Numbers are <<re, im>>.
   State: per section <<w(n-1), w(n-2)>>.                                                     *)
EXTENDS Integers, Sequences, SequencesExt
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Zero == <<0, 0>>
ZeroState(m) == [k \in 1..m |-> <<Zero, Zero>>]
\* one sample through all sections: [s |-> state, v |-> value]
Sample(b, a, s0, x) ==
  FoldLeft(LAMBDA acc, k :
     LET w1 == acc.s[k][1]  w2 == acc.s[k][2]
         w0 == Sub(acc.v, Add(Mul(a[k][1], w1), Mul(a[k][2], w2)))
     IN [s |-> [acc.s EXCEPT ![k] = <<w0, w1>>], v |-> Add(Mul(b[k][1], w0), Add(Mul(b[k][2], w1), Mul(b[k][3], w2)))],
     [s |-> s0, v |-> x], [k \in 1..Len(b) |-> k])
\* a block: [s |-> state after, y |-> outputs]
Filter(b, a, s0, x) ==
  FoldLeft(LAMBDA acc, v : LET r == Sample(b, a, acc.s, v) IN [s |-> r.s, y |-> Append(acc.y, r.v)], [s |-> s0, y |-> <<>>], x)
=============================================================================
