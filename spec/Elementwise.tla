----------------------------- MODULE Elementwise ------------------------------
(* The scalar operations behind element-wise expressions. cx says whether elements are complex (pairs <<re, im>>) or
   real (integers); fl whether real division is exact (floating point) or truncating (integers).
   d: old destination element, a, b, c: operand elements, s: a scalar operand. *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Trunc(a, n) == (IF (a < 0) = (n < 0) THEN 1 ELSE 0 - 1) * (Abs(a) \div Abs(n))
Add(cx, x, y) == IF cx THEN <<x[1] + y[1], x[2] + y[2]>> ELSE x + y
Sub(cx, x, y) == IF cx THEN <<x[1] - y[1], x[2] - y[2]>> ELSE x - y
Mul(cx, x, y) == IF cx THEN <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>> ELSE x * y
Neg(cx, x) == IF cx THEN <<0 - x[1], 0 - x[2]>> ELSE 0 - x
One(cx) == IF cx THEN <<1, 0>> ELSE 1
Conj(x) == <<x[1], 0 - x[2]>>
Magsq(x) == x[1] * x[1] + x[2] * x[2]
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
M16 == 65536
RECURSIVE BitOp(_, _, _, _)
\* op: 1 and, 2 or, 3 xor
BitOp(op, a, b, k) == IF k = 0 THEN 0
                      ELSE LET x == a % 2  y == b % 2
                           IN (CASE op = 1 -> x * y [] op = 2 -> Max2(x, y) [] OTHER -> (x + y) % 2) + 2 * BitOp(op, a \div 2, b \div 2, k - 1)
Sign16(x) == IF x >= M16 \div 2 THEN x - M16 ELSE x
Bits(op, a, b) == Sign16(BitOp(op, a % M16, b % M16, 16))
Arith(cx, code, d, a, b, c, s) ==
  CASE code = 0 \/ code = 50 -> Add(cx, a, b)
    [] code = 1 -> Sub(cx, a, b)
    [] code = 2 -> Mul(cx, a, b)
    [] code = 3 -> Add(cx, Mul(cx, a, b), c)
    [] code = 4 -> Add(cx, a, Mul(cx, b, c))
    [] code = 5 -> Add(cx, Mul(cx, a, b), Mul(cx, c, a))
    [] code = 6 -> Mul(cx, Add(cx, a, b), Sub(cx, a, b))
    [] code = 7 -> Neg(cx, a)
    [] code = 8 -> Mul(cx, a, a)
    [] code = 9 -> Mul(cx, Add(cx, a, b), c)
    [] code = 10 -> Sub(cx, Mul(cx, a, b), c)
    [] code = 11 -> Mul(cx, Sub(cx, a, b), c)
    [] code = 12 -> Add(cx, Mul(cx, a, b), c)
    [] code = 13 -> Add(cx, a, s)
    [] code = 14 -> Sub(cx, s, a)
    [] code = 15 -> Mul(cx, a, s)
    [] code = 16 -> Add(cx, Mul(cx, s, a), b)
    [] code = 17 -> Add(cx, d, a)
    [] code = 18 -> Sub(cx, d, a)
    [] code = 19 -> Mul(cx, d, a)
    [] code = 20 -> Add(cx, d, s)
    [] code = 21 -> Mul(cx, d, s)
    [] code = 22 -> Sub(cx, d, s)
    [] code = 23 -> Add(cx, Mul(cx, d, a), d)
    [] code = 24 -> Add(cx, Mul(cx, s, a), Mul(cx, Sub(cx, One(cx), s), b))
    [] code = 25 -> a
    [] code = 26 -> s
    [] code = 27 -> Add(cx, d, Mul(cx, a, b))
    [] code = 28 -> Sub(cx, a, Mul(cx, b, c))
    [] code = 29 -> Add(cx, a, b)
    [] code = 30 -> Add(cx, Add(cx, a, a), One(cx))
    [] code = 31 -> Sub(cx, Add(cx, a, a), b)
    [] code = 32 -> Add(cx, Sub(cx, a, b), Add(cx, c, c))
    [] code = 33 \/ code = 54 -> Add(cx, a, s)
    [] code = 34 -> Add(cx, Sub(cx, a, b), s)
    [] code = 35 -> Add(cx, Add(cx, Sub(cx, a, b), c), s)
    [] code = 36 -> Add(cx, Mul(cx, a, s), c)
    [] code = 37 -> Mul(cx, Add(cx, s, a), b)
    [] code = 38 -> Add(cx, Sub(cx, Add(cx, a, b), Mul(cx, c, s)), Mul(cx, Sub(cx, a, c), b))
    [] code = 39 -> d
    [] code = 51 -> Sub(cx, a, s)
    [] code = 52 -> Mul(cx, s, a)
    [] code = 53 -> Add(cx, Neg(cx, a), Neg(cx, b))
    [] code = 55 -> Add(cx, Mul(cx, a, a), a)
    [] code = 56 -> Mul(cx, d, Sub(cx, a, b))
    [] code = 57 -> Sub(cx, d, Mul(cx, s, a))
Real(fl, code, d, a, b, c, s) ==
  CASE code = 60 -> Min2(a, b) [] code = 61 -> Max2(a, b) [] code = 62 -> Abs(a)
    [] code = 63 -> IF a > b THEN a ELSE c
    [] code = 64 -> Trunc(a, b) [] code = 65 -> Trunc(d, b) [] code = 66 -> Trunc(d, s) [] code = 67 -> Trunc(a, s)
    [] code = 68 -> Max2(Abs(a), Abs(b)) [] code = 69 -> Min2(Abs(a), Abs(b))
    [] code = 70 -> Max2(a * a, b * b) [] code = 71 -> Min2(a * a, b * b) [] code = 72 -> a * a
    [] code = 73 -> IF a = b THEN c ELSE 0 - c
    [] code = 74 -> Max2(a, s) [] code = 75 -> Min2(a * b, c + a)
    [] code = 80 -> Bits(1, a, b) [] code = 81 -> Bits(2, a, b) [] code = 82 -> Bits(3, a, b) [] code = 83 -> 0 - a - 1
    [] code = 84 -> Bits(1, a, s) [] code = 85 -> Bits(2, a, s)
    [] code = 86 -> Bits(1, d, a) [] code = 87 -> Bits(2, d, a) [] code = 88 -> Bits(3, d, a)
    [] code = 89 -> Bits(1, Bits(3, a, b), c)
Cx(code, d, a, b, c, s) ==
  CASE code = 90 -> Conj(a)
    [] code \in {91, 92} -> Mul(TRUE, a, Conj(b))
    [] code = 93 -> <<a[1] * s[1], a[2] * s[1]>>
    [] code = 94 -> <<a[1] * b[1], a[2] * b[1]>>
    [] code = 95 -> <<a[1], b[2]>>
    [] code = 96 -> <<s[1] + a[1], a[2]>>
    [] code = 97 -> Add(TRUE, Conj(Mul(TRUE, a, b)), c)
    [] code = 98 -> <<b[1], a[1]>>
    [] code = 99 -> <<d[1] * s[1], d[2] * s[1]>>
    [] code = 100 -> <<d[1], d[2] + a[1]>>
    [] code = 101 -> <<a[1], 0>>
    [] code = 102 -> <<s[1], 0>>
\* real results (c real, a and b complex); squares of magnitudes for 115..117
CxReal(code, d, a, b, c) ==
  CASE code \in {110, 115} -> Magsq(a)
    [] code = 111 -> a[1] [] code = 112 -> a[2] + c
    [] code \in {113, 116} -> Max2(Magsq(a), Magsq(b)) [] code \in {114, 117} -> Min2(Magsq(a), Magsq(b))
    [] code = 118 -> d + Magsq(a) - c
    [] code = 119 -> a[1] * b[2] [] code = 120 -> c * a[2]
    [] code = 121 -> Mul(TRUE, a, b)[1] - a[2]
\* logical results, d logical, others real
Bool(code, d, a, b, c, s) ==
  CASE code = 130 -> a = b [] code = 131 -> a # b [] code = 132 -> a < b [] code = 133 -> a <= b [] code = 134 -> a > b [] code = 135 -> a >= b
    [] code = 136 -> a < s [] code = 137 -> s <= a [] code = 138 -> a > b /\ b > c [] code = 139 -> a > b \/ b = c
    [] code = 140 -> ~(a > b) [] code = 141 -> (a > b) # (b > c) [] code = 142 -> (a > b) # d [] code = 143 -> d /\ a < c
    [] code = 144 -> d \/ a = b [] code = 145 -> ~d [] code = 146 -> a # c [] code = 147 -> d [] code = 148 -> a >= s /\ a <= 3
    [] code = 149 -> a = 0
\* integer results of operands that stand for halves (a, b) and integers (c)
FloorDiv(x, n) == x \div n
Conv(code, d, a, b, c) ==
  CASE code = 160 -> Trunc(a, 2) [] code = 161 -> Trunc(a, 2) + c
    [] code = 162 -> Trunc(2 * a + b, 4) [] code = 163 -> Trunc(a + 2 * c, 2)
    [] code = 164 -> FloorDiv(a, 2) [] code = 165 -> 0 - FloorDiv(0 - a, 2)
    [] code = 166 -> Trunc(2 * d + a, 2) [] code = 167 -> c * b
    [] code = 168 -> Trunc(a, 2) + 1000 [] code = 169 -> Trunc(a, 2) + Trunc(b, 2)
\* complex results of real operands
ConvCx(code, d, a, b, c) ==
  CASE code = 170 -> <<a, 0>> [] code = 171 -> <<a * b, 0>> [] code = 172 -> <<a + 1, 0 - 2>> [] code = 173 -> <<c * b, 0>>
    [] code = 174 -> <<b - c, 0>> [] code = 175 -> <<d[1] * a, d[2] * a>> [] code = 176 -> <<b, b>>
    [] code = 177 -> <<d[1] + b, d[2]>> [] code = 178 -> <<b * d[1] + b, b * d[2]>>
===============================================================================
