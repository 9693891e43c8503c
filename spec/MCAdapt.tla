------------------------------ MODULE MCAdapt -------------------------------
(* A FIFO with registered output between two handshakes refines the abstract *)
(* queue (the design-level argument for the adapters).                       *)
EXTENDS Adapt, TLC
CONSTANTS DEPTH
VARIABLES mem, outv, outd, s, verdict, n
vars == <<mem, outv, outd, s, verdict, n>>
C == [depth |-> DEPTH, lag |-> 2, ff |-> 1, ll |-> 1]
Init == mem = <<>> /\ outv = 0 /\ outd = <<0,0,0>> /\ s = QInit(C) /\ verdict = "ok" /\ n = 0
Next == \E v, ordy, f, l \in {0,1} :
  LET rdy == B(Len(mem) < DEPTH - 1)
      e == [v |-> v, p |-> n, f |-> f, l |-> l, rdy |-> rdy, ov |-> outv, op |-> outd[1], of |-> outd[2], ol |-> outd[3], ordy |-> ordy]
      load == mem # <<>> /\ (outv = 0 \/ ordy = 1)
      mem1 == IF load THEN Tail(mem) ELSE mem
      r == QStep(C, s, e)
  IN /\ mem' = IF v = 1 /\ rdy = 1 THEN Append(mem1, <<n, f, l>>) ELSE mem1
     /\ outd' = IF load THEN Head(mem) ELSE outd
     /\ outv' = IF load THEN 1 ELSE IF ordy = 1 THEN 0 ELSE outv
     /\ n' = IF v = 1 /\ rdy = 1 THEN (n + 1) % 5 ELSE n
     /\ s' = r.s /\ verdict' = r.v
Spec == Init /\ [][Next]_vars
Refines == verdict = "ok"
=============================================================================
