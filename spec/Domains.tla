------------------------------ MODULE Domains ------------------------------
(* Domains, indices and extents (vsip::Domain, Index, ovxx::domain_utils).
   A one-dimensional domain is [f |-> first, s |-> stride, n |-> length]; a domain of rank D is a
   sequence of D of them.  The state holds named domains (registers), the result of the last
   query, and a traversal in progress.  Every operation is specified through the SET (or the
   indexed family) of indices it denotes, never through the closed forms the library uses.   *)
EXTENDS Arrays, TLC
VARIABLES reg,    \* register number -> domain (sequence of 1-D domains), <<>> when unset
          trav    \* traversal in progress: [ext, ord, cur, seen]
domvars == <<reg, trav>>

Nth(d, k) == d.f + k * d.s                              \* k-th index, k from 0
Family(d) == [k \in 1..d.n |-> Nth(d, k - 1)]
IdxSet(d) == {Nth(d, k) : k \in 0..(d.n - 1)}
Points(D) == {p \in [1..Len(D) -> UNION {IdxSet(D[i]) : i \in 1..Len(D)}] :
                 \A i \in 1..Len(D) : p[i] \in IdxSet(D[i])}
ValidDom(D) == \A i \in 1..Len(D) : D[i].n >= 0 /\ \A x \in IdxSet(D[i]) : x >= 0
SizeOf(D) == Prod([i \in 1..Len(D) |-> D[i].n])
Ext(D) == [i \in 1..Len(D) |-> D[i].n]

\* the meaning of the operations, one dimension
ShiftD(d, k) == [d EXCEPT !.f = d.f + k]
ScaleD(d, k) == [d EXCEPT !.s = d.s * k]
SortedOf(S) == LET RECURSIVE go(_)
                   go(R) == IF R = {} THEN <<>>
                            ELSE LET m == CHOOSE x \in R : \A y \in R : x <= y IN <<m>> \o go(R \ {m})
               IN go(S)
Common(a, b) == SortedOf(IdxSet(a) \cap IdxSet(b))      \* increasing
\* position of an index in a domain, defined when the index belongs to it
PosIn(d, x) == CHOOSE k \in 0..(d.n - 1) : Nth(d, k) = x
\* Two domains denote the same set (per dimension; both non-empty)
SameSet(A, B) == /\ Len(A) = Len(B)
                 /\ \A i \in 1..Len(A) : IdxSet(A[i]) = IdxSet(B[i])
\* the family of the image of intr (a domain within y) under the map y[k] |-> x[k]
Image(x, y, intr) == [k \in 1..intr.n |-> Nth(x, PosIn(y, Nth(intr, k - 1)))]

\* actions
Assign(r, D) == ValidDom(D) /\ reg' = (r :> D) @@ reg /\ UNCHANGED trav
Shift(r, t, k) == Assign(t, [i \in 1..Len(reg[r]) |-> ShiftD(reg[r][i], k)])
Scale(r, t, k) == k > 0 /\ Assign(t, [i \in 1..Len(reg[r]) |-> ScaleD(reg[r][i], k)])
Unscale(r, t, k) == \* only when every stride is a multiple of k
   \E D \in {reg[r]} :
     LET q == [i \in 1..Len(D) |-> [D[i] EXCEPT !.s = IF D[i].s >= 0 THEN D[i].s \div k ELSE - ((- D[i].s) \div k)]]
     IN k > 0 /\ (\A i \in 1..Len(D) : q[i].s * k = D[i].s) /\ Assign(t, q)
Equal(a, b, res) == res = SameSet(reg[a], reg[b]) /\ UNCHANGED domvars
Conform(a, b, res) == res = (Ext(reg[a]) = Ext(reg[b])) /\ UNCHANGED domvars
PConform(a, b, res) == \* columns of a against rows of b
   /\ Len(reg[b]) = 2
   /\ res = (Len(reg[a]) = 2 /\ reg[a][2].n = reg[b][1].n)
   /\ UNCHANGED domvars
UnitStride(D) == \A i \in 1..Len(D) : D[i].s = 1
Increasing(D) == \A i \in 1..Len(D) : D[i].s > 0
\* res holds the common indices in increasing order; when there are none, it is left alone
Intersect(a, b, t, found, D) ==
   LET C == [i \in 1..Len(reg[a]) |-> Common(reg[a][i], reg[b][i])]
   IN /\ UnitStride(reg[a]) /\ Increasing(reg[b])
      /\ found = (\A i \in 1..Len(C) : C[i] # <<>>)
      /\ (IF found THEN \A i \in 1..Len(C) : Family(D[i]) = C[i]
          ELSE D = reg[t]) = TRUE
      /\ Assign(t, D)
Within(z, y) == \A i \in 1..Len(z) : IdxSet(z[i]) \subseteq IdxSet(y[i])
Apply(x, y, z, t, D) ==
   /\ UnitStride(reg[y]) /\ Within(reg[z], reg[y]) /\ Ext(reg[x]) = Ext(reg[y])
   /\ \A i \in 1..Len(D) : Family(D[i]) = Image(reg[x][i], reg[y][i], reg[z][i])
   /\ Assign(t, D)
\* the positions of z's indices within y
Subset(y, z, t, D) ==
   /\ Within(reg[z], reg[y])
   /\ \A i \in 1..Len(D) : /\ D[i].n = reg[z][i].n
                           /\ \A k \in 0..(D[i].n - 1) : Nth(reg[y][i], Nth(D[i], k)) = Nth(reg[z][i], k)
   /\ Assign(t, D)
Normal(r, t) == Assign(t, [i \in 1..Len(reg[r]) |-> [f |-> 0, s |-> 1, n |-> reg[r][i].n]])
ProjectTo(r, t, k) == k <= Len(reg[r]) /\ Assign(t, SubSeq(reg[r], 1, k))
Empty(t, k) == Assign(t, [i \in 1..k |-> [f |-> 0, s |-> 1, n |-> 0]])

\* Traversal of an extent in a dimension order (a permutation, slowest dimension first)
Within0(e, i) == \A d \in 1..Len(e) : i[d] < e[d]
Rank(e, o, i) == \* how many indices precede i in the order
   LET RECURSIVE go(_)
       go(k) == IF k = 0 THEN 0 ELSE go(k - 1) * e[o[k] + 1] + i[o[k] + 1]
   IN go(Len(e))
BeginTrav(e, o) == trav' = [ext |-> e, ord |-> o, cur |-> [d \in 1..Len(e) |-> 0], seen |-> {}] /\ UNCHANGED reg
Ahead(t) == Within0(t.ext, t.cur)
\* the successor is the unique index whose rank is one higher; past the last it is out of the extent
Step(nxt) ==
   /\ Ahead(trav)
   /\ (IF Cardinality(trav.seen) + 1 < Prod(trav.ext)
       THEN Within0(trav.ext, nxt) /\ Rank(trav.ext, trav.ord, nxt) = Rank(trav.ext, trav.ord, trav.cur) + 1
       ELSE ~Within0(trav.ext, nxt)) = TRUE
   /\ trav' = [trav EXCEPT !.cur = nxt, !.seen = trav.seen \cup {trav.cur}]
   /\ UNCHANGED reg
TravOnce == trav.cur \notin trav.seen
TravInOrder == Ahead(trav) => Rank(trav.ext, trav.ord, trav.cur) = Cardinality(trav.seen)
TravComplete == ~Ahead(trav) => Cardinality(trav.seen) = Prod(trav.ext)
RegsValid == \A r \in DOMAIN reg : ValidDom(reg[r])
=============================================================================
