-------------------------------- MODULE Timer -------------------------------
(* amlib.utils.timer.Timer, one step per clock cycle.                        *)
(* c.restart = allow_restart.  Event: start load reload / done cnt.          *)
EXTENDS Kit
TmInit(c) == [ph |-> "idle", cnt |-> 0]
(* idle: the counter follows load (or reload if load is 0); a start strobe   *)
(* takes the value presented in the cycle before.                            *)
TmNext(c, s, e) ==
  CASE s.ph = "idle" ->
         IF T(e.start) /\ s.cnt > 0
         THEN [ph |-> IF s.cnt = 1 THEN "done" ELSE "run", cnt |-> s.cnt - 1]
         ELSE [ph |-> "idle", cnt |-> IF e.load > 0 THEN e.load ELSE e.reload]
    [] s.ph = "run" -> [ph |-> IF s.cnt = 1 THEN "done" ELSE "run", cnt |-> s.cnt - 1]
    [] s.ph = "done" ->
         IF e.reload > 0 THEN [ph |-> IF e.reload = 1 THEN "done" ELSE "run", cnt |-> e.reload - 1]
         ELSE [ph |-> IF T(c.restart) THEN "idle" ELSE "done", cnt |-> 0]
(* A long stretch is recorded as one event: n cycles in each of which done    *)
(* was low and the counter one less than in the cycle before.                *)
TmLong(c, s, e) ==
  [s |-> [s EXCEPT !.cnt = s.cnt - e.n],
   v |-> Judge(<< <<"done exactly when the time is up", s.ph = "run" /\ s.cnt > e.n>>,
                  <<"counter shows the remaining cycles", e.cnt = s.cnt>> >>)]
TmStep(c, s, e) ==
  IF "n" \in DOMAIN e THEN TmLong(c, s, e) ELSE
  [s |-> TmNext(c, s, e),
   v |-> Judge(<< <<"done exactly when the time is up", T(e.done) = (s.ph = "done")>>,
                  <<"counter shows the remaining cycles", e.cnt = s.cnt>> >>)]
=============================================================================
