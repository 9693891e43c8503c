------------------------------- MODULE MCSer --------------------------------
EXTENDS Gen, TLC
VARIABLES s, inp
C == [n |-> 3, hasmax |-> 1]
I == [start: {0,1}, ml: 0..4, rdy: {0,1}]
Init == s = ZInit(C) /\ inp = [start |-> 0, ml |-> 0, rdy |-> 0]
\* max_length is held while a transmission is running
Next == \E i \in I : (s.ph # "idle" => i.ml = inp.ml) /\ inp' = i /\ s' = ZNext(C, s, i)
Spec == Init /\ [][Next]_<<s, inp>>
InRange == s.pos < C.n /\ (s.ph = "run" => s.pos < inp.ml)
=============================================================================
