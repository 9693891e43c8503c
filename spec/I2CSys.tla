------------------------------- MODULE I2CSys -------------------------------
(* I2CInitiator and I2CTarget on one bus, at the level of the two users.     *)
(* Event: one initiator command with its result (ack or q) and what the      *)
(* target's user saw during it: strobes, wd (byte at the write strobe);      *)
(* ta - the target's user acknowledges data; rd - its byte at a read strobe. *)
EXTENDS Kit
ZInit(c) == [ph |-> "off", out |-> <<>>]      \* off, addr (START sent), sel-w, sel-r, ended (NACKed), other
ZStep(c, s, e) ==
  LET hit  == s.ph = "addr" /\ SubSeq(e.d, 1, 7) = c.addr
      sel  == s.ph \in {"sel-w", "sel-r"}
      want == [start |-> B(e.cmd = "write" /\ hit),
               stop |-> B((e.cmd = "stop" /\ sel) \/ (e.cmd = "read" /\ s.ph = "sel-r" /\ e.k = 0)),
               restart |-> B(e.cmd = "start" /\ sel),
               write |-> B(e.cmd = "write" /\ s.ph = "sel-w"),
               read |-> B((e.cmd = "write" /\ hit /\ e.d[8] = 1) \/ (e.cmd = "read" /\ s.ph = "sel-r" /\ e.k = 1))]
      ack  == CASE s.ph = "addr" -> B(hit) [] s.ph = "sel-w" -> e.ta [] OTHER -> 0
  IN [s |-> [ph |-> CASE e.cmd = "start" -> "addr" [] e.cmd = "stop" -> "off"
                      [] e.cmd = "write" -> IF s.ph = "addr" THEN (IF hit THEN (IF e.d[8] = 1 THEN "sel-r" ELSE "sel-w") ELSE "other") ELSE s.ph
                      [] e.cmd = "read" -> IF s.ph = "sel-r" /\ e.k = 0 THEN "ended" ELSE s.ph,
             out |-> IF want.read = 1 THEN e.rd ELSE s.out],
      v |-> Judge(<< <<"target strobes", e.start = want.start /\ e.stop = want.stop /\ e.restart = want.restart
                                           /\ e.write = want.write /\ e.read = want.read>>,
                     <<"byte written arrives", want.write = 1 => e.wd = e.d>>,
                     <<"acknowledge arrives", e.cmd = "write" => e.ack = ack>>,
                     <<"byte read arrives", e.cmd = "read" => e.q = (IF s.ph = "sel-r" THEN s.out ELSE Rep(1, 8))>> >>)]
=============================================================================
