------------------------------- MODULE FirMC --------------------------------
(* A filter that keeps only a window of the past (skip, saved) computes the same as one that remembers
   the whole signal: symbolic data (every input sample is a distinct token), all kernel lengths,
   decimations, block sizes and histories of call/copy/assign/reset on two objects in bounds.    *)
EXTENDS Fir, TLC, Json
CONSTANTS MaxM, MaxN, MaxOps, Gen
VARIABLES cfg, obj, tok, ok, n, hist
vars == <<cfg, obj, tok, ok, n, hist>>
O == 1..2
New == [skip |-> 0, saved |-> <<>>, past |-> <<>>, nout |-> 0]
Cfgs == {c \in [m : 1..MaxM, d : 1..MaxM, len : 1..MaxN] : c.d <= c.m /\ c.len >= c.m - 1 /\ (Gen => c.m = 2 /\ c.d = 1 /\ c.len = 2)}
Init == cfg \in Cfgs /\ obj = [o \in O |-> New] /\ tok = 0 /\ ok = TRUE /\ n = 0 /\ hist = <<>>
H(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
\* the windowed machine (0-based positions i as in the filter loop)
RECURSIVE Head_(_, _, _, _), Rest(_, _, _)
Head_(s, x, i, acc) ==       \* outputs that reach back into the saved samples
  IF i >= cfg.m - 1 - s.skip THEN <<i, acc>>
  ELSE LET k == Len(s.saved)
           new == {<<j, x[i + s.skip - j + 2]>> : j \in 1..(i + s.skip + 1)}
           old == {<<cfg.m - q, s.saved[i + q + 1]>> : q \in 0..(k - i - 1)}
       IN Head_(s, x, i + cfg.d, Append(acc, new \cup old))
Rest(x, start, acc) ==
  IF start + cfg.m - 1 >= cfg.len THEN <<start, acc>>
  ELSE Rest(x, start + cfg.d, Append(acc, {<<j, x[start + cfg.m - j + 1]>> : j \in 1..cfg.m}))
Call(o) ==
  LET s == obj[o]
      x == [i \in 1..cfg.len |-> tok + i]
      h == Head_(s, x, 0, <<>>)
      r == Rest(x, h[1] - (cfg.m - 1 - s.skip), h[2])
      past == s.past \o x
      want == [i \in 1..Len(OutPos(Len(s.past), Len(past), cfg.d)) |->
                 {<<t[1], past[t[2]]>> : t \in Terms(OutPos(Len(s.past), Len(past), cfg.d)[i], cfg.m)}]
  IN /\ tok' = tok + cfg.len
     /\ obj' = [obj EXCEPT ![o] = [skip |-> r[1] + cfg.m - 1 - cfg.len, saved |-> SubSeq(x, r[1] + 1, cfg.len),
                                   past |-> past, nout |-> s.nout + Len(r[2])]]
     /\ ok' = (ok /\ r[2] = want /\ r[1] <= cfg.len)
     /\ H(<<0, o, 0>>) /\ UNCHANGED cfg
Copy(o, p) == o # p /\ obj' = [obj EXCEPT ![o] = obj[p]] /\ H(<<1, o, p>>) /\ UNCHANGED <<cfg, tok, ok>>
Reset(o) == obj' = [obj EXCEPT ![o] = New] /\ H(<<2, o, 0>>) /\ UNCHANGED <<cfg, tok, ok>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E o \in O : Call(o) \/ Reset(o) \/ \E p \in O : Copy(o, p)
Spec == Init /\ [][Next]_vars
Windowed == ok
Counts == \A o \in O : obj[o].nout = Ceil(Len(obj[o].past), cfg.d) /\ Len(obj[o].saved) + obj[o].skip <= cfg.m + cfg.d
Emit == (Gen /\ n = MaxOps) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
