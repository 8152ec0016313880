------------------------------ MODULE SerialMC ------------------------------
(* Small scope: a descriptor is compatible with a block type exactly if every element is where a dense block of the type looks for it
   (sizes of at least two), and data that another program's dense block described is compatible with the same type of block there.  *)
EXTENDS Serial
CONSTANTS MaxSize, MaxStride
VARIABLES t, b
Dims == {1, 2, 3}
Codes == {4, 5}
\* dense, but for one stride
Near(d) == {[type |-> c, dim |-> d, fmt |-> f, size |-> n, stride |-> [DenseStride(n, o) EXCEPT ![k] = s]] :
               c \in Codes, f \in 0 .. 2, n \in [1 .. d -> 0 .. MaxSize], o \in {Orders[i] : i \in {j \in DOMAIN Orders : Len(Orders[j]) = d}},
               k \in 1 .. d, s \in -1 .. MaxStride}
Init == /\ t \in Near(1) \cup Near(2) \cup Near(3)
        /\ b \in {BlockType(c, Orders[i]) : c \in Codes, i \in DOMAIN Orders}
Next == UNCHANGED <<t, b>>
Spec == Init /\ [][Next]_<<t, b>>
\* where a dense block of the type has element i
RECURSIVE Pl(_, _, _, _)
Pl(n, ord, i, k) == IF k = 0 THEN 0 ELSE Pl(n, ord, i, k - 1) * n[ord[k] + 1] + i[ord[k] + 1]
Place(n, ord, i) == Pl(n, ord, i, Len(ord))
Sound == Compatible(b, t) => \A i \in Indices(t.size) : Address(t, i) = Place(t.size, b.ord, i)
Complete == (/\ t.type = b.type /\ t.dim = Len(b.ord) /\ FormatOk(b, t.fmt) /\ \A k \in 1 .. t.dim : t.size[k] >= 2
             /\ \A i \in Indices(t.size) : Address(t, i) = Place(t.size, b.ord, i)) => Compatible(b, t)
Other == Compatible(b, t) => t.type = b.type /\ (t.fmt # Array => b.cx)
=============================================================================
