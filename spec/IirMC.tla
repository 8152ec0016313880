------------------------------- MODULE IirMC --------------------------------
(* The block-wise filter equals the difference equation y(n) = b.x - a.y of the whole signal, section by
   section, for every way of cutting a signal into blocks and every history of call/copy/reset.  *)
EXTENDS Iir, TLC, Json
CONSTANTS Wide, Smp, MaxLen, MaxOps, Gen
Coef == IF Wide THEN {-2, 0, 1} ELSE {-1, 1}
VARIABLES flt, obj, ok, n, hist
vars == <<flt, obj, ok, n, hist>>
O == 1..2
R(x) == <<x, 0>>
Filters == [b : [1..2 -> {<<R(1), R(x), R(y)>> : x \in Coef, y \in Coef}], a : [1..2 -> {<<R(x), R(y)>> : x \in Coef, y \in Coef}]]
Init == /\ flt \in (IF Gen THEN {[b |-> [k \in 1..2 |-> <<R(1), R(1), R(0)>>], a |-> [k \in 1..2 |-> <<R(1), R(0)>>]]} ELSE Filters)
        /\ obj = [o \in O |-> [s |-> ZeroState(2), past |-> <<>>]] /\ ok = TRUE /\ n = 0 /\ hist = <<>>
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
At(s, i) == IF i >= 1 THEN s[i] ELSE Zero
\* one section as a difference equation over the whole signal
Diff(b, a, x) ==
  LET RECURSIVE Go(_)
      Go(y) == LET i == Len(y) + 1 IN IF i > Len(x) THEN y
        ELSE Go(Append(y, Sub(Add(Mul(b[1], x[i]), Add(Mul(b[2], At(x, i - 1)), Mul(b[3], At(x, i - 2)))),
                              Add(Mul(a[1], At(y, i - 1)), Mul(a[2], At(y, i - 2))))))
  IN Go(<<>>)
Whole(x) == Diff(flt.b[2], flt.a[2], Diff(flt.b[1], flt.a[1], x))
Blocks == IF Gen THEN {<<R(1)>>} ELSE UNION {[1..k -> {R(x) : x \in Smp}] : k \in 1..2}
Call(o) == \E x \in Blocks :
  /\ Len(obj[o].past) + Len(x) <= MaxLen
  /\ LET r == Filter(flt.b, flt.a, obj[o].s, x)  p == obj[o].past \o x  w == Whole(p)
     IN obj' = [obj EXCEPT ![o] = [s |-> r.s, past |-> p]] /\ ok' = (ok /\ r.y = SubSeq(w, Len(p) - Len(x) + 1, Len(p)))
  /\ H(<<0, o, 0>>) /\ UNCHANGED flt
Copy(o, p) == o # p /\ obj' = [obj EXCEPT ![o] = obj[p]] /\ H(<<1, o, p>>) /\ UNCHANGED <<flt, ok>>
Reset(o) == obj' = [obj EXCEPT ![o] = [s |-> ZeroState(2), past |-> <<>>]] /\ H(<<2, o, 0>>) /\ UNCHANGED <<flt, ok>>
Next == n < MaxOps /\ n' = n + 1 /\ \E o \in O : Call(o) \/ Reset(o) \/ \E p \in O : Copy(o, p)
Spec == Init /\ [][Next]_vars
Equal == ok
Emit == (Gen /\ n = MaxOps) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
