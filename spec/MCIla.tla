------------------------------- MODULE MCIla --------------------------------
(* The analyzer's structure - synchronizer stages, for three or more samples  *)
(* before the trigger also a filled-up FIFO with an output register, write    *)
(* position, memory - in a closed world: every input, enable and trigger      *)
(* history is judged by the specification.                                    *)
EXTENDS Ila, TLC
CONSTANTS P, Depth, En, NMax
Cfg == [p |-> P, depth |-> Depth, en |-> En]
VARIABLES m, s, v, n
vars == <<m, s, v, n>>
Stages == IF P = 0 THEN 1 ELSE IF P = 2 THEN 3 ELSE 2
UseFifo == P >= 3
Init == /\ m = [sync |-> [i \in 1..Stages |-> <<0, 0>>], q |-> <<>>, out |-> <<0, 0>>, ov |-> FALSE, fill |-> 0,
                wp |-> 0, cap |-> FALSE, complete |-> 0, mem |-> [i \in 1..Depth |-> 0], rd |-> 0]
        /\ s = IlaInit(Cfg) /\ v = "ok" /\ n = 0
Filled == m.fill >= P - 1
Synced == m.sync[Stages]
Delayed == IF UseFifo THEN m.out ELSE Synced
DelayedEn == ~En \/ (T(Delayed[2]) /\ (~UseFifo \/ Filled))
Sampling == m.cap /\ DelayedEn
SyncEn == ~En \/ T(Synced[2])
Wen == Filled \/ SyncEn
(* buffered FIFO of P + 1 places: P in the memory, one in the output register *)
DoRead == m.q # <<>> /\ (~m.ov \/ Filled)
QRead == IF DoRead THEN Tail(m.q) ELSE m.q
Event(i, en, trig, a) == [in |-> i, en |-> en, trig |-> trig, addr |-> a, complete |-> m.complete,
                          capturing |-> B(m.cap), sampling |-> B(Sampling), data |-> m.rd]
Next == \E i \in 0..1, en \in (IF En THEN 0..1 ELSE {1}), trig \in 0..1, a \in 0..Depth - 1 :
    LET r == IlaStep(Cfg, s, Event(i, en, trig, a))
        last == Sampling /\ m.wp = Depth - 1
    IN /\ n < NMax /\ n' = n + 1 /\ s' = r.s /\ v' = r.v
       /\ trig = 1 => n >= 1
       /\ (m.complete = 0 \/ m.cap) => a = 0          \* reads only matter after completion
       /\ (m.complete = 1 /\ trig = 0) => i = 0
       /\ m' = [sync |-> [k \in 1..Stages |-> IF k = 1 THEN <<i, en>> ELSE m.sync[k - 1]],
                q |-> IF UseFifo /\ Wen /\ Len(m.q) < P THEN Append(QRead, Synced) ELSE QRead,
                out |-> IF DoRead THEN Head(m.q) ELSE m.out,
                ov |-> IF DoRead THEN TRUE ELSE IF Filled THEN FALSE ELSE m.ov,
                fill |-> IF UseFifo /\ SyncEn /\ ~Filled THEN m.fill + 1 ELSE m.fill,
                wp |-> IF ~m.cap /\ trig = 1 THEN 0 ELSE IF Sampling THEN (m.wp + 1) % Depth ELSE m.wp,
                cap |-> IF m.cap THEN ~last ELSE trig = 1,
                complete |-> IF ~m.cap /\ trig = 1 THEN 0 ELSE IF last THEN 1 ELSE m.complete,
                mem |-> IF Sampling THEN [m.mem EXCEPT ![m.wp + 1] = Delayed[1]] ELSE m.mem,
                rd |-> m.mem[a + 1]]
Spec == Init /\ [][Next]_vars
Agree == v = "ok"
View == <<m, s, v, n>>
=============================================================================
