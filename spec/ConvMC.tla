--------------------------------- MODULE ConvMC ---------------------------------
(* A convolution object as a machine that consumes the input elements in any order and scatters every one into the
   outputs it contributes to; when all are consumed the outputs must be the defining sums. Relations between the
   supports, decimations and correlation are checked alongside. *)
EXTENDS Conv, TLC
CONSTANTS N, Ms, Ds, Vals
VARIABLES sym, sup, D, c, x, todo, acc
vars == <<sym, sup, D, c, x, todo, acc>>
d == <<1, N>>
R(v) == <<v, 0>>
kd == KDims(TRUE, sym, <<1, Len(c)>>)
h == Kernel(TRUE, sym, <<1, Len(c)>>, c)
o == OutDims(sup, kd, d, D)
Init == /\ sym \in Syms /\ sup \in Supports /\ D \in Ds
        /\ \E m \in Ms : c \in [1..m -> {R(v) : v \in Vals}]
        /\ x \in [1..N -> {R(v) : v \in Vals}]
        /\ KLen(sym, Len(c)) <= N
        /\ todo = 1..N /\ acc = [i \in 1..o[2] |-> Zero]
\* element j (from 1) meets output n through kernel position n * D + shift - (j - 1)
Feed(j) == /\ todo' = todo \ {j}
           /\ acc' = [i \in DOMAIN acc |-> LET k == (i - 1) * D + Shift(sup, kd[2]) - (j - 1)
                                           IN IF k \in 0..(kd[2] - 1) THEN Add(acc[i], Mul(h[k + 1], x[j])) ELSE acc[i]]
           /\ UNCHANGED <<sym, sup, D, c, x>>
Next == \E j \in todo : (\A i \in todo : j <= i \/ i % 2 = 1) /\ Feed(j)
Spec == Init /\ [][Next]_vars
Right == todo = {} => acc = ConvOf(sup, kd, h, d, x, D)
\* every support is a window of the full convolution, every decimation keeps each D-th element
FullAll == ConvOf("full", kd, h, d, x, 1)
Window == todo = {} => \A i \in DOMAIN acc : acc[i] = FullAll[(i - 1) * D + Shift(sup, kd[2]) + 1]
Fits == o[2] >= 1 /\ (sup = "min" => (o[2] - 1) * D + kd[2] - 1 < N)
\* no further output would fit
Maximal == sup = "min" => o[2] * D + kd[2] - 1 >= N
\* correlation is convolution with the reversed conjugate
Rev(s) == [i \in DOMAIN s |-> Conj(s[Len(s) + 1 - i])]
Corr == (todo = {} /\ D = 1) => CorrOf(sup, kd, h, d, x) =
          [i \in DOMAIN acc |-> LET n == i - 1 - Lead(sup, kd[2]) + kd[2] - 1
                                IN Conj(ConvOf("full", kd, Rev(h), d, x, 1)[n + 1])]
Scales == \A i \in 1..OutLen(sup, kd[2], N, 1) : Scale(TRUE, sup, kd, d, 0, i - 1) >= 1
=================================================================================
