----------------------------- MODULE DistArrays -----------------------------
(* Distributed arrays seen globally: one logical array each.  What processor p holds locally is a
   pure function of the logical content and the map: the elements of the subblock it holds, in
   local row-major order.  Views select positions of the logical array; an assignment replaces
   the selected positions by the values the source view had before.                          *)
EXTENDS Maps

DimSeq(d, e, sb) == SelectSeq([k \in 1..e |-> k - 1], LAMBDA i : DOwner(d, e, i) = sb)
\* global positions of the elements of subblock sb, in local order
HomeSeq(m, ext, sb) ==
  LET se == [x \in 1..Len(ext) |-> DimSeq(m.dist[x], ext[x], SubOf(m, sb)[x])]
      lens == [x \in 1..Len(ext) |-> Len(se[x])]
  IN [q \in 1..Prod(lens) |-> LET ix == Idx(lens, q - 1) IN Pos(ext, [x \in 1..Len(ext) |-> se[x][ix[x] + 1]])]
Home(m, ext) == [sb \in 1..NSub(m) |-> HomeSeq(m, ext, sb - 1)]

\* views: form f with argument d of an array of extent ext -> [ext, at (global positions in view order)]
View(ext, f, d) ==
  CASE f = "w" -> [ext |-> ext, at |-> [q \in 1..Prod(ext) |-> q - 1]]
    [] f = "s" -> LET e == [x \in 1..Len(ext) |-> d[3 * x]]
                  IN [ext |-> e, at |-> [q \in 1..Prod(e) |-> LET ix == Idx(e, q - 1) IN
                        Pos(ext, [x \in 1..Len(ext) |-> d[3 * x - 2] + d[3 * x - 1] * ix[x]])]]
    [] f = "t" -> LET e == <<ext[2], ext[1]>>
                  IN [ext |-> e, at |-> [q \in 1..Prod(e) |-> LET ix == Idx(e, q - 1) IN Pos(ext, <<ix[2], ix[1]>>)]]
    [] f = "r" -> [ext |-> <<ext[2]>>, at |-> [q \in 1..ext[2] |-> Pos(ext, <<d[1], q - 1>>)]]
    [] f = "c" -> [ext |-> <<ext[1]>>, at |-> [q \in 1..ext[1] |-> Pos(ext, <<q - 1, d[1]>>)]]
    [] f = "d" -> LET r0 == IF d[1] < 0 THEN -d[1] ELSE 0  c0 == IF d[1] > 0 THEN d[1] ELSE 0
                      n == Min2(ext[1] - r0, ext[2] - c0)
                  IN [ext |-> <<n>>, at |-> [q \in 1..n |-> Pos(ext, <<r0 + q - 1, c0 + q - 1>>)]]
    [] f \in {"x", "y", "z"} -> LET k == IF f = "x" THEN 1 ELSE IF f = "y" THEN 2 ELSE 3
                                    e == [x \in 1..2 |-> IF x < k THEN ext[x] ELSE ext[x + 1]]
                  IN [ext |-> e, at |-> [q \in 1..Prod(e) |-> LET ix == Idx(e, q - 1) IN
                        Pos(ext, [x \in 1..3 |-> IF x < k THEN ix[x] ELSE IF x = k THEN d[1] ELSE ix[x - 1]])]]
    [] f \in {"p", "q", "u"} -> LET k == IF f = "p" THEN 3 ELSE IF f = "q" THEN 2 ELSE 1
                  IN [ext |-> <<ext[k]>>, at |-> [q \in 1..ext[k] |->
                        Pos(ext, [x \in 1..3 |-> IF x = k THEN q - 1 ELSE IF x < k THEN d[x] ELSE d[x - 1]])]]
\* array record: [map, ext, home, g (logical content)]
MkArr(m, ext, g) == [map |-> m, ext |-> ext, home |-> Home(m, ext), g |-> g]
Put(a, v, vals) ==
  LET inv == [p \in {v.at[q] : q \in 1..Len(v.at)} |-> CHOOSE q \in 1..Len(v.at) : v.at[q] = p]
  IN [a EXCEPT !.g = [k \in DOMAIN a.g |-> IF (k - 1) \in DOMAIN inv THEN vals[inv[k - 1]] ELSE a.g[k]]]
Get(a, v) == [q \in 1..Len(v.at) |-> a.g[v.at[q] + 1]]
LocalPart(a, p) == LET sb == SubHeldBy(a.map, p) IN IF sb = -1 THEN <<>> ELSE [q \in 1..Len(a.home[sb + 1]) |-> a.g[a.home[sb + 1][q] + 1]]
=============================================================================
