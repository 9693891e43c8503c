-------------------------------- MODULE I2CT --------------------------------
(* io.i2c.I2CTarget at the level of clock pulses.  One event per master      *)
(* operation: op "S" (START / repeated START), "P" (STOP) or "B" (clock pulse*)
(* in which the master drives m); line = level of SDA while SCL was high.    *)
(* Strobes seen during the operation (its SCL-low and SCL-high phase):       *)
(*   start stop restart write read, and wd = data_i at the write strobe.     *)
(* Application: ak - acknowledges (ack_o) when a byte is written in this     *)
(* operation; rd - data_o presented to the read strobe (only then).          *)
(* c.addr = address bits (MSB first).                                        *)
EXTENDS Kit
AInit(c) == [ph |-> "idle", n |-> 0, sh |-> <<>>, out |-> <<>>]
(* ph: idle (not selected), addr (n bits seen), aack, write, wack, read, rack*)
(* level the target lets through in this pulse                               *)
ADrive(s, e) == CASE s.ph = "aack" -> 0
                  [] s.ph = "wack" -> 1 - e.ak
                  [] s.ph = "read" -> s.out[s.n + 1]
                  [] OTHER -> 1
Selected(s) == s.ph \in {"aack", "write", "wack", "read", "rack"}
Quiet == [start |-> 0, stop |-> 0, restart |-> 0, write |-> 0, read |-> 0]
(* what the falling edge at the beginning of the operation strobes           *)
AFall(s) == [Quiet EXCEPT !.start = B(s.ph = "aack"), !.write = B(s.ph = "wack")]
(* every operation that is not a START from the free bus has a clock pulse;  *)
(* in a STOP the master's SDA is 0, in a repeated START 1 during that pulse  *)
APulse(c, s, e, b) ==
  CASE s.ph = "addr" /\ s.n < 7 -> [s EXCEPT !.n = @ + 1, !.sh = Append(@, b)]
    [] s.ph = "addr" /\ s.n = 7 -> IF s.sh = c.addr THEN [s EXCEPT !.ph = "aack", !.sh = <<b>>] ELSE [s EXCEPT !.ph = "idle"]
    [] s.ph = "aack" -> IF s.sh = <<0>> THEN [ph |-> "write", n |-> 0, sh |-> <<>>, out |-> <<>>]
                        ELSE [ph |-> "read", n |-> 0, sh |-> <<>>, out |-> e.rd]
    [] s.ph = "write" -> IF s.n = 7 THEN [s EXCEPT !.ph = "wack", !.sh = Append(@, b)] ELSE [s EXCEPT !.n = @ + 1, !.sh = Append(@, b)]
    [] s.ph = "wack" -> [ph |-> "write", n |-> 0, sh |-> <<>>, out |-> <<>>]
    [] s.ph = "read" -> IF s.n = 7 THEN [s EXCEPT !.ph = "rack"] ELSE [s EXCEPT !.n = @ + 1]
    [] s.ph = "rack" -> IF b = 0 THEN [ph |-> "read", n |-> 0, sh |-> <<>>, out |-> e.rd] ELSE [s EXCEPT !.ph = "idle"]
    [] OTHER -> s
(* the read strobe comes when the pulse starts the next byte; a NACK ends the transaction *)
AReads(s, b) == (s.ph = "aack" /\ s.sh = <<1>>) \/ (s.ph = "rack" /\ b = 0)
AStops(s, b) == s.ph = "rack" /\ b = 1
AStep(c, s, e) ==
  LET pulse == e.op = "B" \/ e.pulse = 1            \* a clock pulse happened in this operation
      b   == IF e.op = "B" THEN e.line ELSE IF e.op = "P" THEN 0 ELSE 1
      s1  == IF pulse THEN APulse(c, s, e, b) ELSE s
      f   == IF pulse THEN AFall(s) ELSE Quiet
      ex  == [start |-> f.start, write |-> f.write,
              read |-> B(pulse /\ AReads(s, b)),
              stop |-> B(pulse /\ AStops(s, b)) + B(e.op = "P" /\ Selected(s1) /\ s.ph # "addr"),
              \* (the address counts as received only when the clock falls again)
              restart |-> B(e.op = "S" /\ Selected(s1) /\ s.ph # "addr")]
      s2  == CASE e.op = "S" -> [ph |-> "addr", n |-> 0, sh |-> <<>>, out |-> <<>>]
               [] e.op = "P" -> [s1 EXCEPT !.ph = "idle"]
               [] OTHER -> s1
  IN [s |-> s2,
      v |-> Judge(<< <<"SDA level", e.op = "B" => e.line = Min2(e.m, ADrive(s, e))>>,
                     <<"start strobe", e.start = ex.start>>, <<"write strobe", e.write = ex.write>>,
                     <<"received byte", ex.write = 1 => e.wd = s.sh>>,
                     <<"read strobe", e.read = ex.read>>, <<"stop strobe", e.stop = ex.stop>>,
                     <<"restart strobe", e.restart = ex.restart>> >>)]
=============================================================================
