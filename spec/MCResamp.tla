------------------------------ MODULE MCResamp ------------------------------
(* The machine with a FIFO of c.m entries between the two rates, for every    *)
(* schedule of offers and takes, against the schedule independent rule.       *)
EXTENDS Resamp, TLC
CONSTANTS M, D, NIN
Cfg == [b |-> <<16, 8>>, a |-> <<>>, n |-> 1, bw |-> 6, f |-> 4, ob |-> 5, m |-> M, d |-> D, pre |-> 2]
VARIABLES s, g, up, fifo, dc, k, held, v
vars == <<s, g, up, fifo, dc, k, held, v>>
Init == /\ s = ResInit(Cfg) /\ g = FiltInit(Cfg).g /\ up = 0 /\ fifo = <<>> /\ dc = 0 /\ k = 0
        /\ held = 0 /\ v = "ok"
Do(want, rdy, val) ==
    LET room == Len(fifo) < M
        ir == up = 0 /\ room
        iv == want \/ held > 0
        ip == IF held > 0 THEN held ELSE val
        acc == iv /\ ir
        sh == acc \/ (up > 0 /\ room)
        x == IF acc THEN Wrap(ip * 2, 6) ELSE 0
        w == ChainOut(Cfg, g)
        rr == fifo # <<>>
        ov == rr /\ dc = 0
        take == rr /\ (dc # 0 \/ rdy)
        r == ResStep(Cfg, s, [iv |-> B(iv), ir |-> B(ir), ip |-> ip, ov |-> B(ov), or |-> B(rdy),
                              op |-> IF rr THEN fifo[1] ELSE 0])
    IN /\ (held > 0 => val = held)
       /\ (iv => k < NIN \/ held > 0)
       /\ v' = r.v /\ s' = [r.s EXCEPT !.pay = IF r.s.held THEN r.s.pay ELSE 0]
       /\ g' = IF sh THEN ChainIn(Cfg, g, x) ELSE g
       /\ up' = IF acc THEN M - 1 ELSE IF sh THEN up - 1 ELSE up
       /\ fifo' = (IF take THEN Tail(fifo) ELSE fifo) \o (IF sh THEN <<w % 32>> ELSE <<>>)
       /\ dc' = IF ~take THEN dc ELSE IF dc = 0 THEN D - 1 ELSE dc - 1
       /\ k' = IF iv /\ held = 0 THEN k + 1 ELSE k
       /\ held' = IF iv /\ ~ir THEN ip ELSE 0
Next == \E w, rdy \in BOOLEAN, val \in {3, 7} : (~w => val = 3 \/ held = 7) /\ Do(w, rdy, val)
Spec == Init /\ [][Next]_vars
Ok == v = "ok"
(* When everything has drained, ceil(M * inputs / D) outputs have been made.  *)
Drained == (up = 0 /\ fifo = <<>>) => s.due = <<>>
=============================================================================
