------------------------------ MODULE HistoMC --------------------------------
(* One histogram object under every short history of (accumulating or replacing) calls. *)
EXTENDS Histo, TLC
CONSTANTS MaxV, MaxN, MaxLen, MaxCalls
VARIABLES p, h, seen, hist
vars == <<p, h, seen, hist>>
Vals == (0 - 1)..(MaxV + 1)
Init == /\ p \in {<<mn, mx, n>> \in (0..MaxV) \X (0..MaxV) \X (3..MaxN) : mn < mx}
        /\ h = Zero(p[3]) /\ seen = <<>> /\ hist = <<>>
Data == UNION {[1..k -> Vals] : k \in 0..MaxLen}
Call == /\ Len(hist) < MaxCalls
        /\ \E acc \in BOOLEAN, x \in Data :
             /\ seen' = IF acc THEN seen \o x ELSE x
             /\ h' = AddTo(p[1], p[2], p[3], IF acc THEN h ELSE Zero(p[3]), x, 1)
             /\ hist' = Append(hist, acc)
             /\ p' = p
Next == Call
Spec == Init /\ [][Next]_vars
OneBin == \A v \in Vals : Cardinality({k \in 1..p[3] : InBin(p[1], p[2], p[3], v, k)}) = 1
                          /\ InBin(p[1], p[2], p[3], v, Bin(p[1], p[2], p[3], v))
Sum == Total(h) = Len(seen)
Counts == \A k \in 1..p[3] : h[k] = Cardinality({i \in 1..Len(seen) : InBin(p[1], p[2], p[3], seen[i], k)})
Monotone == \A v, w \in Vals : v <= w => Bin(p[1], p[2], p[3], v) <= Bin(p[1], p[2], p[3], w)
=============================================================================
