------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* A base block and the views derived from it by subview operators.        *)
(*                                                                         *)
(* store : the block's scalars, row-major, nc scalars per element          *)
(* views : sequence of views; a view has dims, nc (scalars per element)    *)
(*         and pos, the store position of the first scalar of each of its  *)
(*         elements in row-major order                                     *)
(***************************************************************************)
EXTENDS Arrays

VARIABLES store, views
vwvars == <<store, views>>

Base(dims, nc) == [dims |-> dims, nc |-> nc, pos |-> [p \in 1..Prod(dims) |-> (p-1) * nc + 1]]

\* dims of the subview  (a: integer arguments of the operator)
SubDims(k, d, a) ==
  CASE k = "dom" -> [n \in 1..Len(d) |-> a[3*n]]
    [] k = "row" -> <<d[2]>>
    [] k = "col" -> <<d[1]>>
    [] k = "diag" -> <<IF a[1] >= 0 THEN Min2(Min2(d[1], d[2]), d[2] - a[1])
                       ELSE Min2(Min2(d[1], d[2]), d[1] + a[1])>>
    [] k = "trans" -> <<d[2], d[1]>>
    [] k = "perm" -> [n \in 1..3 |-> d[a[n] + 1]]
    [] k = "slice" -> [n \in 1..2 |-> IF n < a[1] THEN d[n] ELSE d[n+1]]
    [] k = "slicesub" -> <<a[5], a[8]>>
    [] k = "slice2" -> <<d[6 - a[1] - a[3]]>>
    [] k = "slice2sub" -> <<a[7]>>
    [] k \in {"real", "imag"} -> d

\* index into the parent of index i of the subview
SubIdx(k, a, i) ==
  CASE k = "dom" -> [n \in 1..Len(i) |-> a[3*n-2] + i[n] * a[3*n-1]]
    [] k = "row" -> <<a[1], i[1]>>
    [] k = "col" -> <<i[1], a[1]>>
    [] k = "diag" -> IF a[1] >= 0 THEN <<i[1], i[1] + a[1]>> ELSE <<i[1] - a[1], i[1]>>
    [] k = "trans" -> <<i[2], i[1]>>
    [] k = "perm" -> [n \in 1..3 |-> i[CHOOSE m \in 1..3 : a[m] + 1 = n]]
    [] k = "slice" -> [n \in 1..3 |-> IF n = a[1] THEN a[2] ELSE IF n < a[1] THEN i[n] ELSE i[n-1]]
    [] k = "slicesub" ->
         LET j == <<a[3] + i[1] * a[4], a[6] + i[2] * a[7]>>
         IN  [n \in 1..3 |-> IF n = a[1] THEN a[2] ELSE IF n < a[1] THEN j[n] ELSE j[n-1]]
    [] k = "slice2" -> [n \in 1..3 |-> IF n = a[1] THEN a[2] ELSE IF n = a[3] THEN a[4] ELSE i[1]]
    [] k = "slice2sub" ->
         [n \in 1..3 |-> IF n = a[1] THEN a[2] ELSE IF n = a[3] THEN a[4] ELSE a[5] + i[1] * a[6]]
    [] k \in {"real", "imag"} -> i

SubView(v, k, a) ==
  LET d == SubDims(k, v.dims, a)
  IN  [dims |-> d,
       nc |-> IF k \in {"real", "imag"} THEN 1 ELSE v.nc,
       pos |-> [p \in 1..Prod(d) |->
                  v.pos[Pos(v.dims, SubIdx(k, a, Idx(d, p-1))) + 1] + (IF k = "imag" THEN 1 ELSE 0)]]

\* a subview operator may be applied where every selected index exists
Legal(v, k, a) ==
  LET d == SubDims(k, v.dims, a)
  IN  /\ k \in {"real", "imag"} => v.nc = 2
      /\ \A n \in 1..Len(d) : d[n] > 0
      /\ \A p \in 0..Prod(d) - 1 : InDims(v.dims, SubIdx(k, a, Idx(d, p)))

\* what a view shows
Content(v, s) == [q \in 1..(Len(v.pos) * v.nc) |-> s[v.pos[((q-1) \div v.nc) + 1] + ((q-1) % v.nc)]]
\* the store after element p (0-based) of view v becomes x
StoreElem(v, s, p, x) ==
  LET at == v.pos[p+1]
  IN  [q \in 1..Len(s) |-> IF q >= at /\ q < at + v.nc THEN x[q - at + 1] ELSE s[q]]
\* the store after the whole view is assigned the flattened values x
StoreAll(v, s, x) ==
  LET touched == {v.pos[p] : p \in 1..Len(v.pos)}
  IN  FoldLeft(LAMBDA acc, p : [q \in {v.pos[p] + c : c \in 0..v.nc-1} |-> x[(p-1) * v.nc + (q - v.pos[p]) + 1]] @@ acc,
               s, [p \in 1..Len(v.pos) |-> p])

New(dims, nc, v) == store' = v /\ views' = <<Base(dims, nc)>>
Derive(parent, k, a) ==
  /\ parent \in 1..Len(views)
  /\ Legal(views[parent], k, a)
  /\ views' = Append(views, SubView(views[parent], k, a))
  /\ UNCHANGED store
Put(id, p, x) == store' = StoreElem(views[id], store, p, x) /\ UNCHANGED views
Assign(id, x) == store' = StoreAll(views[id], store, x) /\ UNCHANGED views
Fill(id, x) == LET v == views[id]
               IN Assign(id, [q \in 1..(Len(v.pos) * v.nc) |-> x[((q-1) % v.nc) + 1]])
Read(id, x) == x = Content(views[id], store) /\ UNCHANGED vwvars

(* invariants *)
Wellformed ==
  \A n \in 1..Len(views) :
    LET v == views[n]
    IN  /\ Len(v.pos) = Prod(v.dims)
        \* distinct elements of a view are distinct elements of the block
        /\ Cardinality({v.pos[p] : p \in 1..Len(v.pos)}) = Len(v.pos)
        /\ \A p \in 1..Len(v.pos) : v.pos[p] >= 1 /\ v.pos[p] + v.nc - 1 <= Len(store)
=============================================================================
