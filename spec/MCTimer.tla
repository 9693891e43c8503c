------------------------------- MODULE MCTimer ------------------------------
(* `since` counts cycles independently of the timer's own counter.           *)
EXTENDS Timer, TLC
CONSTANTS MAX, RESTART
VARIABLES s, inp, since, goal
vars == <<s, inp, since, goal>>
C == [restart |-> RESTART]
I == [start: {0,1}, load: 0..MAX, reload: 0..MAX]
Init == s = TmInit(C) /\ inp = [start |-> 0, load |-> 0, reload |-> 0] /\ since = 0 /\ goal = 0
Next == \E i \in I :
  /\ inp' = i /\ s' = TmNext(C, s, i)
  /\ IF s.ph = "idle" THEN IF s'.ph # "idle"
                           THEN since' = 1 /\ goal' = (IF inp.load > 0 THEN inp.load ELSE inp.reload)
                           ELSE since' = 0 /\ goal' = 0
     ELSE IF s.ph = "done" THEN IF i.reload > 0 THEN since' = 1 /\ goal' = i.reload ELSE since' = 0 /\ goal' = 0
     ELSE since' = since + 1 /\ goal' = goal
Spec == Init /\ [][Next]_vars
\* done is asserted exactly `goal` cycles after the start strobe / the previous done
Exact == goal > 0 => (s.ph = "done") = (since = goal)
Bounded == since <= MAX /\ s.cnt <= MAX
=============================================================================
