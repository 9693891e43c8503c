------------------------------- MODULE MCI2CG -------------------------------
(* Command-level behaviours of an I2C initiator, replayed on the gateware.   *)
EXTENDS Kit
VARIABLES open, last, inp
Init == open = FALSE /\ last = "none" /\ inp = [cmd |-> "none"]
Data == {0, 255, 85, 170, 129, 126}
Next ==
  \/ /\ ~open /\ inp' = [cmd |-> "start"] /\ open' = TRUE /\ last' = "start"
  \/ /\ open /\ last # "start" /\ inp' = [cmd |-> "start"] /\ last' = "start" /\ UNCHANGED open
  \/ /\ open /\ inp' = [cmd |-> "stop"] /\ open' = FALSE /\ last' = "stop"
  \/ /\ open /\ \E d \in Data, a \in 0..1 : inp' = [cmd |-> "write", d |-> d, a |-> a] /\ last' = (IF a = 1 THEN "wack" ELSE "wnak")
     /\ UNCHANGED open
  \/ /\ open /\ \E r \in Data, k \in 0..1 : inp' = [cmd |-> "read", r |-> r, k |-> k] /\ last' = (IF k = 1 THEN "rack" ELSE "rnak")
     /\ UNCHANGED open
Spec == Init /\ [][Next]_<<open, last, inp>>
=============================================================================
