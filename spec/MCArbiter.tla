----------------------------- MODULE MCArbiter ------------------------------
(* Three producers, each sending bursts of length 1..MAXB under backpressure.*)
EXTENDS Arbiter, TLC
CONSTANTS N, MAXB, MAXP
VARIABLES s, inp, left, sent, out, prev, prevact
(* left[k]: words left in producer k's burst (0 = idle); sent[k]: words it   *)
(* handed over in total; out: the sequence of <<producer, word number>>.     *)
vars == <<s, inp, left, sent, out, prev, prevact>>
C == [n |-> N]
V(l) == [k \in 1..N |-> B(l[k] > 0)]
Init == /\ s = AInit(C) /\ inp = [rdy |-> 0]
        /\ left = [k \in 1..N |-> 0] /\ sent = [k \in 1..N |-> 0] /\ out = <<>> /\ prev = 0 /\ prevact = 1
Next == \E rdy \in {0, 1}, start \in [1..N -> 0..MAXB] :
   LET v == V(left)
       xfer == rdy = 1 /\ v[s.act] = 1
       after == [k \in 1..N |-> IF xfer /\ k = s.act THEN left[k] - 1 ELSE left[k]]
   IN /\ \A k \in 1..N : start[k] > 0 => left[k] = 0 /\ sent[k] < MAXP
      /\ inp' = [rdy |-> rdy]
      /\ s' = ANext(C, s, v)
      /\ left' = [k \in 1..N |-> IF start[k] > 0 THEN start[k] ELSE after[k]]
      /\ sent' = IF xfer THEN [sent EXCEPT ![s.act] = @ + 1] ELSE sent
      /\ out' = IF xfer THEN Append(out, <<s.act, sent[s.act] + 1>>) ELSE out
      /\ prev' = v[s.act] /\ prevact' = s.act
Spec == Init /\ [][Next]_vars
View == <<s, left, sent, out, prev, prevact>>
\* exactly once, in order, per producer
Mine(k) == SelectSeq(out, LAMBDA x : x[1] = k)
ExactlyOnce == \A k \in 1..N : Mine(k) = [j \in 1..sent[k] |-> <<k, j>>]
\* a producer that was valid and selected stays selected
NotInterrupted == prev = 1 => s.act = prevact
=============================================================================
