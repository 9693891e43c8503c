------------------------------- MODULE Resamp -------------------------------
(* Fractional resampler: every accepted sample is followed by c.m - 1 zeros,  *)
(* the filter sees this sequence, and of its outputs every c.d-th one is      *)
(* passed on.  Nothing of this depends on when samples are offered or taken.  *)
EXTENDS Filt
FC(c) == c          \* the filter parameters are part of c
RECURSIVE Ups(_, _, _, _)
(* Feed n samples (v, then zeros): new filter state and the outputs seen      *)
(* just before each one is shifted in.                                        *)
Ups(c, g, v, n) == IF n = 0 THEN <<g, <<>>>>
                   ELSE LET r == Ups(c, ChainIn(c, g, v), 0, n - 1)
                        IN <<r[1], <<ChainOut(c, g)>> \o r[2]>>
(* The outputs that are kept, j being the number of outputs before these.     *)
Kept(c, q, j) == SelectSeq([i \in 1..Len(q) |-> <<q[i], (j + i - 1) % c.d>>], LAMBDA p : p[2] = 0)
ResInit(c) == [g |-> FiltInit(c).g, j |-> 0, due |-> <<>>, held |-> FALSE, pay |-> 0, stuck |-> 0]
ResStep(c, s, e) ==
    LET acc  == T(e.iv) /\ T(e.ir)
        u    == Ups(c, s.g, Wrap(e.ip * c.pre, c.bw), c.m)
        kept == Kept(c, u[2], s.j)
        more == [i \in 1..Len(kept) |-> kept[i][1] % Pow2(c.ob)]
        out  == T(e.ov) /\ T(e.or)
        ok   == s.due # <<>>
    IN [s |-> [g |-> IF acc THEN u[1] ELSE s.g,
               j |-> IF acc THEN (s.j + c.m) % c.d ELSE s.j,
               due |-> (IF out THEN Drop(s.due, 1) ELSE s.due) \o (IF acc THEN more ELSE <<>>),
               held |-> T(e.ov) /\ ~T(e.or), pay |-> e.op,
               stuck |-> IF acc \/ out \/ ~T(e.or) \/ ~(T(e.iv) \/ s.due # <<>>) THEN 0 ELSE s.stuck + 1],
        v |-> Judge(<<
          <<"valid as long as not ready", s.held => T(e.ov)>>,
          <<"payload stays as long as not ready", s.held => e.op = s.pay>>,
          <<"no output before its input", T(e.ov) => ok>>,
          <<"outputs are the kept filter outputs in order", (T(e.ov) /\ ok) => e.op = s.due[1]>>,
          <<"progress while the output is taken", s.stuck <= 2 * c.m + c.d + 8>> >>)]
=============================================================================
