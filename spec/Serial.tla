------------------------------- MODULE Serial -------------------------------
(* Descriptors of stored data, and the block types that can be bound to the storage they describe.

   A descriptor is [type, dim, fmt, size, stride]: element type code, number of dimensions, storage format, and for each dimension its
   size and the distance, in elements, of neighbours.  A block type is [type, cx, ord]: element type code, whether that is complex, and
   the order of its dimensions from major to minor (as many as it has).                                                               *)
EXTENDS Integers, Sequences, FiniteSets

Array == 1
Split == 2
Interleaved == 3
IntCode(bytes, unsigned) == bytes * 1024 + (IF unsigned THEN 512 ELSE 0) + 256
\* bool char float complex<float> double complex<double> int8 uint8 int16 uint16 int32 uint32 int64 uint64 and a type of the user's
Types == <<0, 1, 4, 5, 6, 7, IntCode(1, FALSE), IntCode(1, TRUE), IntCode(2, FALSE), IntCode(2, TRUE),
           IntCode(4, FALSE), IntCode(4, TRUE), IntCode(8, FALSE), IntCode(8, TRUE), 65536>>
IsComplex(code) == code \in {5, 7}
Orders == <<<<0>>, <<0, 1>>, <<1, 0>>, <<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>>>>
BlockType(code, ord) == [type |-> code, cx |-> IsComplex(code), ord |-> ord]
BlockTypes == [k \in 1 .. Len(Types) * Len(Orders) |-> BlockType(Types[((k - 1) \div Len(Orders)) + 1], Orders[((k - 1) % Len(Orders)) + 1])]

\* the strides of dense data of size n (a sequence) with dimension order ord
RECURSIVE Under(_, _, _)
Under(n, ord, k) == IF k > Len(ord) THEN 1 ELSE n[ord[k] + 1] * Under(n, ord, k + 1)
DenseStride(n, ord) == [d \in 1 .. Len(n) |-> Under(n, ord, (CHOOSE k \in 1 .. Len(ord) : ord[k] + 1 = d) + 1)]

FormatOk(b, fmt) == fmt = Array \/ (b.cx /\ fmt \in {Split, Interleaved})
Compatible(b, t) == /\ t.type = b.type
                    /\ t.dim = Len(b.ord)
                    /\ FormatOk(b, t.fmt)
                    /\ SubSeq(t.stride, 1, t.dim) = DenseStride(SubSeq(t.size, 1, t.dim), b.ord)
RECURSIVE Addr(_, _, _)
Addr(t, i, k) == IF k = 0 THEN 0 ELSE Addr(t, i, k - 1) + i[k] * t.stride[k]
Address(t, i) == Addr(t, i, t.dim)
Indices(n) == {i \in [1 .. Len(n) -> 0 .. 8] : \A k \in 1 .. Len(n) : i[k] < n[k]}
=============================================================================
