-------------------------------- MODULE Fir ---------------------------------
(* FIR filtering.  Signals are sequences, h the full kernel h[1..m].  The abstract filter remembers
   everything it was given since its creation or last reset; each call appends its block and returns
   the outputs whose (0-based) position is a multiple of the decimation and lies in the new block.  *)
EXTENDS Integers, Sequences, SequencesExt
\* kernel expansion: sym 0 none, 1 even with odd length, 2 even with even length
Expand(k, sym) == CASE sym = 0 -> k [] sym = 1 -> k \o Tail(Reverse(k)) [] sym = 2 -> k \o Reverse(k)
\* positions (0-based) of the outputs of a call whose block is at lo..hi-1 of the signal
OutPos(lo, hi, dec) == SelectSeq([i \in 1..(hi - lo) |-> lo + i - 1], LAMBDA p : p % dec = 0)
\* terms of the output at position p: <<kernel index, signal index>>, both 1-based
Terms(p, m) == {<<j, p - j + 2>> : j \in {i \in 1..m : p - i + 2 >= 1}}
Ceil(a, b) == (a + b - 1) \div b
=============================================================================
