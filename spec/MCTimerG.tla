------------------------------ MODULE MCTimerG ------------------------------
EXTENDS Timer, TLC
CONSTANTS MAX, RESTART
VARIABLES s, inp
C == [restart |-> RESTART]
I == [start: {0,1}, load: 0..MAX, reload: 0..MAX]
Init == s = TmInit(C) /\ inp = [start |-> 0, load |-> 0, reload |-> 0]
Next == \E i \in I : inp' = i /\ s' = TmNext(C, s, i)
Spec == Init /\ [][Next]_<<s, inp>>
=============================================================================
