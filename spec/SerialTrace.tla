---------------------------- MODULE SerialTrace ----------------------------
(* Checks traces of data being described, and of blocks being bound to described storage. *)
EXTENDS Serial, Json, IOUtils, TLC
VARIABLES l, last, xs
D == INSTANCE Dda
A == INSTANCE Arrays
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
None == [type |-> -1, dim |-> 0, fmt |-> 0, size |-> <<>>, stride |-> <<>>]
Init == l = 1 /\ last = None /\ xs = <<>>
Desc == [type |-> E.head[1], dim |-> E.head[2], fmt |-> E.head[3], size |-> E.size, stride |-> E.stride]
\* float complex<float> int uint8 int64 complex<double> bool double
Code == <<4, 5, IntCode(4, FALSE), IntCode(1, TRUE), IntCode(8, FALSE), 7, 0, 6>>
Bytes == <<4, 8, 4, 1, 8, 16, 1, 8>>
Of(t, p) == IF t \in {1, 5} THEN <<3 * p + 1, -p - 2>>
            ELSE IF t = 6 THEN <<IF p % 3 = 0 THEN 1 ELSE 0>>
            ELSE IF t = 3 THEN <<(3 * p + 1) % 256>>
            ELSE <<3 * p + 1>>
\* the elements of the described view: all, or a subview (first, stride and length for each dimension), of dims n filled in row-major order
ViewDims == IF E.q = <<>> THEN E.n ELSE [k \in 1 .. Len(E.n) |-> E.q[3 * k]]
RECURSIVE Flat(_, _)
Flat(f, n) == IF n = 0 THEN <<>> ELSE Flat(f, n - 1) \o f[n]
Elements == LET m == ViewDims
                at(p) == LET i == A!Idx(m, p)
                         IN IF E.q = <<>> THEN p ELSE A!Pos(E.n, [k \in 1 .. Len(m) |-> E.q[3 * k - 2] + E.q[3 * k - 1] * i[k]])
                c == A!Prod(m)
                f == [p \in 1 .. c |-> Of(E.t, at(p - 1))]
            IN Flat(f, c)
Cx == E.t \in {1, 5}
Format == IF ~Cx THEN Array
          ELSE IF E.lay <= 1 THEN (IF E.pk = "D" THEN Array ELSE E.f) ELSE IF E.lay = 2 THEN Array ELSE IF E.lay = 3 THEN Split ELSE Interleaved
Ord(d) == SubSeq(E.o, 1, d)
Forward(d) == [k \in 1 .. d |-> k - 1]
Back(d) == [k \in 1 .. d |-> d - k]
\* what is known of the strides, other than that the elements are where they say
StrideOk(t, m) ==
  LET w == Bytes[E.t + 1]
  IN (CASE E.lay = 2 -> LET s == DenseStride(m, Forward(t.dim)) IN \A k \in 1 .. t.dim : m[k] = 1 \/ t.stride[k] = s[k]
        [] E.lay = 3 -> LET s == DenseStride(m, Back(t.dim)) IN \A k \in 1 .. t.dim : m[k] = 1 \/ t.stride[k] = s[k]
        [] E.lay = 4 -> D!LayoutOk("aligned", 64, [k \in 1 .. t.dim |-> Back(t.dim)[k] + 1], m, t.stride, w)
        [] E.lay <= 1 /\ E.q = <<>> /\ E.pk # "a" -> t.stride = DenseStride(m, Ord(t.dim))
        [] E.lay <= 1 /\ E.q = <<>> /\ E.pk = "a" ->
              D!LayoutOk("aligned", 32, [k \in 1 .. t.dim |-> E.o[k] + 1], m, t.stride, IF E.f = Split THEN w \div 2 ELSE w)
        [] OTHER -> TRUE) = TRUE
Packed(t) == \E o \in {Orders[i] : i \in DOMAIN Orders} : Len(o) = t.dim /\ t.stride = DenseStride(t.size, o)
StorageOk(t, m) ==
  LET c == A!Prod(m)
  IN IF E.lay = -1 THEN E.head[4] = IF t.fmt = Array THEN c ELSE 2 * c
     ELSE E.head[4] = E.esize /\ E.head[4] >= c /\ ((Packed(t) => E.lay = 4 \/ E.head[4] = c) = TRUE)
AllCompatible(t) == {k - 1 : k \in {j \in 1 .. Len(BlockTypes) : Compatible(BlockTypes[j], t)}}
Verdicts(t) == {E.ok[k] : k \in 1 .. Len(E.ok)} = AllCompatible(t)
Begin == Is("begin") /\ last' = None /\ xs' = <<>>
Src == /\ Is("src")
       /\ LET t == Desc
              m == ViewDims
              e == Elements
          IN /\ t.type = Code[E.t + 1] /\ t.dim = E.d /\ t.fmt = Format /\ t.size = m
             /\ E.x = e
             /\ StrideOk(t, m)
             /\ StorageOk(t, m)
             /\ Verdicts(t)
             /\ last' = t /\ xs' = e
Given == Is("desc") /\ Verdicts(Desc) /\ UNCHANGED <<last, xs>>
Trip == /\ Is("trip") /\ UNCHANGED <<last, xs>>
        /\ LET c == Compatible(BlockType(last.type, SubSeq(E.ord, 1, last.dim)), last)
           IN E.ok = c /\ E.x = IF c THEN xs ELSE <<>>
Next == Begin \/ Src \/ Given \/ Trip
TSpec == Init /\ [][Next]_<<l, last, xs>>
TraceAccepted == LET d == TLCGet("stats").diameter - 1
                 IN  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED_AT", d + 1>>, FALSE)
=============================================================================
