------------------------------- MODULE Edges --------------------------------
(* EdgeToPulse, rising/falling/any_edge_detected, past_value_of and          *)
(* stretch_strobe_signal.  Event: x (input, possibly multi-bit) and y.       *)
(* c.kind; c.n = number of cycles for the stretcher.                         *)
EXTENDS Kit
EdInit(c) == [past |-> 0, hist |-> IF c.kind \in {"stretch", "stretch_delay"} THEN Rep(0, c.n) ELSE <<>>]
EdOut(c, s, x) ==
  CASE c.kind = "rise"  -> B(x = 1 /\ s.past = 0)
    [] c.kind = "fall"  -> B(x = 0 /\ s.past = 1)
    [] c.kind = "any"   -> B(x # s.past)
    [] c.kind = "past"  -> s.past
    [] c.kind = "stretch" -> B(x = 1 \/ \E k \in 2..c.n : s.hist[k] = 1)
    [] c.kind = "stretch_delay" -> IF c.n = 1 THEN x ELSE B(\E k \in 1..c.n : s.hist[k] = 1)
EdNext(c, s, x) == [past |-> x, hist |-> IF s.hist = <<>> THEN <<>> ELSE Append(Tail(s.hist), x)]
EdStep(c, s, e) == [s |-> EdNext(c, s, e.x), v |-> Judge(<< <<c.kind, e.y = EdOut(c, s, e.x)>> >>)]
=============================================================================
