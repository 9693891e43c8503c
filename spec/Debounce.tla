------------------------------ MODULE Debounce ------------------------------
(* amlib.io.debouncer.Debouncer.  The button is active low.  The input goes  *)
(* through a two stage synchronizer; the state flips once the synchronized   *)
(* level has differed from it for c.max+1 consecutive cycles, with one strobe*)
(* in the last of these cycles.                                              *)
(* Event: b n st dn up - n consecutive cycles with the same values; n > 1    *)
(* only while the synchronizer is settled and nothing is strobed.            *)
EXTENDS Kit
DbInit(c) == [s0 |-> 0, s1 |-> 0, cnt |-> 0, st |-> 0]
DbIdle(s)   == s.s1 = s.st
DbStrobe(c, s) == ~DbIdle(s) /\ s.cnt = c.max
DbNext(c, s, e) ==
  [s0 |-> 1 - e.b, s1 |-> s.s0,
   cnt |-> IF DbIdle(s) \/ s.cnt = c.max THEN 0 ELSE s.cnt + 1,
   st |-> IF DbStrobe(c, s) THEN 1 - s.st ELSE s.st]
DbRun(c, s, e) == [s EXCEPT !.cnt = IF DbIdle(s) THEN 0 ELSE s.cnt + e.n]
DbStep(c, s, e) ==
  LET settled == s.s0 = 1 - e.b /\ s.s1 = 1 - e.b IN
  [s |-> IF e.n = 1 THEN DbNext(c, s, e) ELSE DbRun(c, s, e),
   v |-> Judge(<< <<"state", e.st = s.st>>,
                  <<"pressed strobe", T(e.dn) = (DbStrobe(c, s) /\ s.st = 0)>>,
                  <<"released strobe", T(e.up) = (DbStrobe(c, s) /\ s.st = 1)>>,
                  <<"nothing may happen in a quiet stretch", e.n = 1 \/ (settled /\ (DbIdle(s) \/ s.cnt + e.n <= c.max))>> >>)]
=============================================================================
