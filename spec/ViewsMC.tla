------------------------------ MODULE ViewsMC -------------------------------
(* Every chain of subview operators up to length MaxSub on small blocks, then *)
(* one write through every view; exported for replay when Gen.                *)
EXTENDS Views, Json, IOUtils
CONSTANTS MaxSub, Gen, Dims, Nc
VARIABLES hist, last
allv == <<store, views, hist, last>>

Doms(n) == {<<f, s, k>> \in (0..n-1) \X {-2, -1, 1, 2} \X (1..n) :
              f + s * (k-1) >= 0 /\ f + s * (k-1) < n /\ (k = 1 => s = 1)}
Pick(n) == IF MaxSub > 1 /\ n > 2 THEN {<<0, 1, n>>, <<n-1, -1, n>>, <<1, 1, n-1>>, <<0, 2, (n+1) \div 2>>,
                                         <<n-1, -2, (n+1) \div 2>>, <<n-1, 1, 1>>}
           ELSE Doms(n)
Ops(v) ==
  LET d == v.dims
  IN  (IF v.nc = 2 THEN {<<"real", <<>>>>, <<"imag", <<>>>>} ELSE {})
      \cup
      CASE Len(d) = 1 -> {<<"dom", x>> : x \in Pick(d[1])}
        [] Len(d) = 2 -> {<<"dom", x \o y>> : x \in Pick(d[1]), y \in Pick(d[2])}
                         \cup {<<"row", <<r>>>> : r \in 0..d[1]-1} \cup {<<"col", <<r>>>> : r \in 0..d[2]-1}
                         \cup {<<"diag", <<k>>>> : k \in (1-d[1])..(d[2]-1)} \cup {<<"trans", <<>>>>}
        [] Len(d) = 3 -> {<<"perm", p>> : p \in {<<0,1,2>>,<<0,2,1>>,<<1,0,2>>,<<1,2,0>>,<<2,0,1>>,<<2,1,0>>}}
                         \cup UNION {{<<"slice", <<x, i>>>> : i \in 0..d[x]-1} : x \in 1..3}
                         \cup UNION {{<<"slice2", <<xy[1], i, xy[2], j>>>> : i \in 0..d[xy[1]]-1, j \in 0..d[xy[2]]-1} :
                                        xy \in {<<1,2>>, <<1,3>>, <<2,3>>}}
                         \cup {<<"dom", x \o y \o z>> : x \in {<<0,1,d[1]>>, <<d[1]-1,-1,d[1]>>}, y \in {<<0,1,d[2]>>, <<d[2]-1,-1,1>>}, z \in Pick(d[3])}

D1 == <<4>>
D2 == <<3, 4>>
D2s == <<2, 3>>
D3 == <<2, 3, 2>>
Init == /\ store = [q \in 1..(Prod(Dims) * Nc) |-> q]
        /\ views = <<Base(Dims, Nc)>> /\ hist = <<>> /\ last = 0
H(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Next ==
  \/ /\ Len(views) <= MaxSub /\ last = 0
     /\ \E o \in Ops(views[Len(views)]) : Derive(Len(views), o[1], o[2]) /\ H(o) /\ UNCHANGED last
  \/ /\ last = 0 /\ ~Gen
     /\ \E id \in 1..Len(views) :
          /\ last' = id
          /\ UNCHANGED hist
          /\ \/ Fill(id, [c \in 1..views[id].nc |-> 90 + c])
             \/ Assign(id, [q \in 1..(Len(views[id].pos) * views[id].nc) |-> 100 + q])
             \/ \E p \in 0..Len(views[id].pos)-1 : Put(id, p, [c \in 1..views[id].nc |-> 90 + c])
Spec == Init /\ [][Next]_allv

\* writing through a view changes what that view shows and nothing it does not select
WriteLocal ==
  [][last' # last =>
       \A q \in 1..Len(store) :
          store'[q] # store[q] =>
            \E p \in 1..Len(views[last'].pos) :
               q >= views[last'].pos[p] /\ q < views[last'].pos[p] + views[last'].nc]_allv
\* parent and child views see the same write
Coherent ==
  \A id \in 1..Len(views) : Content(views[id], store) = [q \in 1..(Len(views[id].pos) * views[id].nc) |->
      store[views[id].pos[((q-1) \div views[id].nc) + 1] + ((q-1) % views[id].nc)]]
Emit == (Gen /\ hist # <<>>) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
