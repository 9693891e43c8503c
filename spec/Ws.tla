-------------------------------- MODULE Ws ----------------------------------
(* WS2811/WS2812 LED chain driver.  cfg: n LEDs, h0/h1 cycles a 0/1 bit is    *)
(* high, per nominal cycles per bit, rst least reset time, lat memory latency.*)
(* Events: write t a v (24 bits of the colour in sending order: green, red,   *)
(* blue, each MSB first), start, done (strobe; low: cycles the line has been  *)
(* low), up (after low cycles), down (after high cycles), idle (probe).       *)
EXTENDS Kit
Cell(v) == [v |-> v, t |-> 0 - 100, old |-> {}]
WsInit(c) == [mem |-> [i \in 1..c.n |-> Cell(Rep(0, 24))], ph |-> "idle", k |-> 0, j |-> 0, cand |-> {}, h |-> 0]
(* ph: idle, reset (low before the first bit), high, low (the two parts of a   *)
(* bit), tail (low part of the last bit and final reset)                       *)
Values(c, m, t) == {m.v} \cup (IF t - m.t <= c.lat THEN m.old ELSE {})
Begin(c, s, t) == [s EXCEPT !.ph = "high", !.j = IF s.j = 24 THEN 1 ELSE s.j + 1,
                            !.k = IF s.j = 24 THEN s.k + 1 ELSE s.k,
                            !.cand = IF s.j = 24 THEN Values(c, s.mem[s.k + 2], t) ELSE IF s.j = 0 THEN Values(c, s.mem[1], t) ELSE @]
WsStep(c, s, e) ==
  CASE e.op = "write" ->
         [s |-> [s EXCEPT !.mem = [@ EXCEPT ![e.a + 1] =
                    [v |-> e.v, t |-> e.t, old |-> (IF e.t - @.t <= c.lat THEN @.old ELSE {}) \cup {@.v}]]], v |-> "ok"]
    [] e.op = "start" -> [s |-> IF s.ph = "idle" THEN [s EXCEPT !.ph = "begin"] ELSE s, v |-> "ok"]
    [] e.op = "down" /\ s.ph = "begin" -> [s |-> [s EXCEPT !.ph = "reset", !.j = 0, !.k = 0], v |-> "ok"]
    [] e.op = "up" /\ s.ph = "reset" ->
         [s |-> Begin(c, s, e.t), v |-> Judge(<< <<"the chain is reset before the first LED", e.len >= c.rst>> >>)]
    [] e.op = "up" /\ s.ph = "low" ->
         [s |-> Begin(c, s, e.t), v |-> Judge(<< <<"every bit lasts one bit time", e.len + s.h \in c.per..(c.per + 1)>> >>)]
    [] e.op = "down" /\ s.ph = "high" ->
         LET bit == IF e.len = c.h1 THEN 1 ELSE 0
             keep == {w \in s.cand : w[s.j] = bit}
         IN [s |-> [s EXCEPT !.ph = IF s.j = 24 /\ s.k = c.n - 1 THEN "tail" ELSE "low", !.cand = keep, !.h = e.len],
             v |-> Judge(<< <<"every bit is high for the time of a 0 or of a 1", e.len \in {c.h0, c.h1}>>,
                            <<"the LEDs get their stored colours in order, green, red, blue, MSB first", keep # {}>> >>)]
    [] e.op = "done" /\ s.ph = "tail" ->
         [s |-> [s EXCEPT !.ph = "over"],
          v |-> Judge(<< <<"the final reset lasts long enough", e.len >= c.rst + c.per - s.h>> >>)]
    [] e.op = "up" /\ s.ph = "over" -> [s |-> [s EXCEPT !.ph = "idle"], v |-> "ok"]
    [] e.op = "idle" /\ s.ph = "idle" -> [s |-> s, v |-> "ok"]
    [] OTHER -> [s |-> s, v |-> "the line or done is driven out of sequence"]
=============================================================================
