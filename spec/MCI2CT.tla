------------------------------ MODULE MCI2CT --------------------------------
(* An arbitrary master against the target specification: transactions are    *)
(* bracketed by exactly one start and one stop-or-restart strobe, bytes are  *)
(* strobed only inside of a transaction, the target never holds SDA unless   *)
(* selected.  (Three address bits suffice: the others behave alike.)         *)
EXTENDS I2CT, TLC
VARIABLES s, intx, err, free
Cfg == [addr |-> <<0, 1, 0, 1, 0, 0, 0>>]
Init == s = AInit(Cfg) /\ intx = 0 /\ err = FALSE /\ free = TRUE
Zero == Rep(0, 8)
Ev(op, m, ak, rd) ==
  LET e0 == [op |-> op, m |-> m, line |-> IF op = "B" THEN Min2(m, ADrive(s, [ak |-> ak])) ELSE 0, pulse |-> B(op # "B" /\ ~free), ak |-> ak, rd |-> rd]
      pulse == op = "B" \/ e0.pulse = 1
      b == IF op = "B" THEN e0.line ELSE IF op = "P" THEN 0 ELSE 1
      s1 == IF pulse THEN APulse(Cfg, s, e0, b) ELSE s
      f == IF pulse THEN AFall(s) ELSE Quiet
      stop == B(pulse /\ AStops(s, b)) + B(op = "P" /\ Selected(s1) /\ s.ph # "addr")
      rest == B(op = "S" /\ Selected(s1) /\ s.ph # "addr")
      data == f.write + B(pulse /\ AReads(s, b))
      r == AStep(Cfg, s, [e0 EXCEPT !.op = op] @@ [start |-> f.start, stop |-> stop, restart |-> rest, write |-> f.write,
                                                   read |-> B(pulse /\ AReads(s, b)), wd |-> IF s.ph = "wack" THEN s.sh ELSE <<>>])
  IN /\ s' = r.s /\ free' = (op = "P")
     /\ intx' = intx + f.start - stop - rest
     /\ err' = (err \/ r.v # "ok" \/ (data > 0 /\ intx + f.start # 1) \/ (f.start = 1 /\ intx # 0))
(* a STOP or repeated START is possible only if the target lets SDA go       *)
Next == \/ \E m, ak \in 0..1, rd \in {Zero, Rep(1, 8)} : ~free /\ Ev("B", m, ak, rd)
        \/ \E ak \in 0..1, op \in {"S", "P"} : /\ (op = "P" => ~free) /\ (free \/ ADrive(s, [ak |-> ak]) = 1)
                                               /\ Ev(op, 0, ak, Zero)
Spec == Init /\ [][Next]_<<s, intx, err, free>>
Sound == ~err
Bracketed == intx = B(Selected(s) /\ s.ph # "aack")
OnlySelectedDrives == ~Selected(s) => ADrive(s, [ak |-> 1]) = 1
=============================================================================
