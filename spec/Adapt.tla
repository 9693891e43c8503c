------------------------------- MODULE Adapt --------------------------------
(* amlib.stream: attaching, tapping, and stream <-> FIFO adapters.           *)
EXTENDS Kit
-----------------------------------------------------------------------------
(* L...: two stream interfaces linked by attach/connect/stream_eq/tap.       *)
(* c.keep[j] = 1 when forward field j is to be copied; c.rdy = "back" (ready *)
(* flows from destination to source), "fwd" (tap: ready is copied along) or  *)
(* "none".  Event: src[], dst[] forward fields, sr/dr the two ready signals  *)
(* as observed, xr the ready value driven by the environment.                *)
LInit(c) == [x |-> 0]
LStep(c, s, e) ==
  [s |-> s,
   v |-> Judge(<< <<"forward fields are copied", \A j \in 1..Len(c.keep) : T(c.keep[j]) => e.dst[j] = e.src[j]>>,
                  <<"omitted fields are left alone", \A j \in 1..Len(c.keep) : T(c.keep[j]) \/ e.dst[j] = 0>>,
                  <<"ready", CASE c.rdy = "back" -> e.sr = e.xr
                               [] c.rdy = "fwd"  -> e.dr = e.xr
                               [] OTHER          -> (e.sr = 0 \/ e.dr = 0)>> >>)]
-----------------------------------------------------------------------------
(* Q...: stream -> FIFO -> stream.  The chain is a bounded queue of          *)
(* (payload, first, last).  c.depth, c.lag: cycles data may need to surface. *)
QInit(c) == [q |-> <<>>, held |-> FALSE, hungry |-> 0, stuck |-> 0, all |-> <<>>]
QStep(c, s, e) ==
  LET push == T(e.v) /\ T(e.rdy)
      pop  == T(e.ov) /\ T(e.ordy)
      q1   == IF pop /\ s.q # <<>> THEN Tail(s.q) ELSE s.q
      q2   == IF push THEN Append(q1, <<e.p, IF T(c.ff) THEN e.f ELSE 0, IF T(c.ll) THEN e.l ELSE 0>>) ELSE q1
      hungry == IF s.q # <<>> /\ ~T(e.ov) THEN s.hungry + 1 ELSE 0
      stuck  == IF Len(s.q) < c.depth /\ ~T(e.rdy) THEN s.stuck + 1 ELSE 0
  IN [s |-> [q |-> q2, held |-> T(e.ov) /\ ~T(e.ordy), hungry |-> hungry, stuck |-> stuck, all |-> s.all],
      v |-> Judge(<< <<"nothing is offered that was not put in", T(e.ov) => s.q # <<>> >>,
                     <<"an offered word is not withdrawn", s.held => T(e.ov)>>,
                     <<"words leave in order with their first/last marks",
                       T(e.ov) /\ s.q # <<>> => <<e.op, e.of, e.ol>> = Head(s.q)>>,
                     <<"bounded by the FIFO's depth", Len(q2) <= c.depth + 1>>,
                     <<"data surfaces", hungry <= c.lag>>,
                     <<"space is offered", stuck <= c.lag>> >>)]
=============================================================================
