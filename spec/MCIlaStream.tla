---------------------------- MODULE MCIlaStream ------------------------------
(* The stream readout of the analyzer as it is built (memory with registered *)
(* read, sample counter, word/latency alternation) in a closed world: every  *)
(* input, trigger and ready history is judged by the specification.          *)
EXTENDS IlaOut
CONSTANTS Depth, Waits, NMax
Cfg == [p |-> 0, depth |-> Depth, en |-> FALSE, w |-> 1, cdc |-> FALSE, lim |-> 3]
VARIABLES m, s, v, n
Init == /\ m = [fsm |-> "idle", d |-> 0, cap |-> FALSE, complete |-> 0, wp |-> 0, mem |-> [i \in 1..Depth |-> 0],
                rd |-> 0, k |-> 0, first |-> 0, dv |-> TRUE]
        /\ s = StInit(Cfg) /\ v = "ok" /\ n = 0
Valid == m.fsm = "send" /\ m.dv
IsLast == m.k = Depth - 1
Next == \E i \in 0..1, trig \in 0..1, ready \in 0..1 :
    LET acc  == trig = 1 /\ m.fsm = "idle"
        e == [in |-> <<i>>, en |-> 1, trig |-> trig, acc |-> B(acc), complete |-> m.complete, capturing |-> B(m.cap),
              wt |-> 1, rt |-> 1, valid |-> B(Valid), ready |-> ready, payload |-> <<m.rd>>,
              first |-> m.first, last |-> B(m.fsm = "send" /\ IsLast)]
        r == StStep(Cfg, s, e)
        take == Valid /\ ready = 1
        lastw == m.cap /\ m.wp = Depth - 1
    IN /\ n < NMax /\ n' = n + 1 /\ s' = r.s /\ v' = r.v
       /\ Waits => (ready = 1 => Valid)              \* a consumer that waits for valid
       /\ (~m.cap /\ ~acc) => i = 0
       /\ m' = [fsm |-> CASE m.fsm = "idle" -> IF trig = 1 THEN "sample" ELSE "idle"
                          [] m.fsm = "sample" -> IF m.complete = 1 THEN "send" ELSE "sample"
                          [] OTHER -> IF take /\ IsLast THEN "idle" ELSE "send",
                d |-> i, cap |-> IF m.cap THEN ~lastw ELSE acc,
                complete |-> IF acc THEN 0 ELSE IF lastw THEN 1 ELSE m.complete,
                wp |-> IF acc THEN 0 ELSE IF m.cap THEN m.wp + 1 ELSE m.wp,
                mem |-> IF m.cap THEN [m.mem EXCEPT ![m.wp + 1] = m.d] ELSE m.mem,
                rd |-> m.mem[(IF m.k < Depth THEN m.k ELSE 0) + 1],
                k |-> IF m.fsm = "sample" /\ m.complete = 1 THEN 0 ELSE IF take THEN m.k + 1 ELSE m.k,
                first |-> IF m.fsm = "sample" /\ m.complete = 1 THEN 1 ELSE IF take THEN 0 ELSE m.first,
                dv |-> IF m.fsm # "send" THEN m.dv ELSE IF m.dv THEN ready = 0 ELSE TRUE]
Spec == Init /\ [][Next]_<<m, s, v, n>>
Agree == v = "ok"
=============================================================================
