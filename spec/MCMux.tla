------------------------------- MODULE MCMux --------------------------------
(* With at most one producer talking at a time (the multiplexer's contract), *)
(* every word handed over arrives exactly once and nobody else is granted.   *)
EXTENDS Arbiter, TLC
CONSTANTS N, MAXW
VARIABLES talker, sent, out
vars == <<talker, sent, out>>
Init == talker = 0 /\ sent = [k \in 1..N |-> 0] /\ out = <<>>
V(t) == [k \in 1..N |-> B(k = t)]
Next == \E rdy \in {0,1}, t \in 0..N :
          LET v == V(talker)
              k == FirstValid(v)
              g == [j \in 1..N |-> IF j = k THEN rdy ELSE 0]
          IN /\ \A j \in 1..N : sent[j] <= MAXW
             /\ out' = IF k # 0 /\ rdy = 1 THEN Append(out, <<k, sent[k] + 1>>) ELSE out
             /\ sent' = [j \in 1..N |-> IF v[j] = 1 /\ g[j] = 1 THEN sent[j] + 1 ELSE sent[j]]
             /\ talker' = t
Spec == Init /\ [][Next]_vars
ExactlyOnce == \A k \in 1..N : SelectSeq(out, LAMBDA x : x[1] = k) = [j \in 1..sent[k] |-> <<k, j>>]
Constraint == \A j \in 1..N : sent[j] <= MAXW
=============================================================================
