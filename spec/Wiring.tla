------------------------------- MODULE Wiring -------------------------------
(* H...: utils.bus.OneHotMultiplexer - stateless; v, a, b, o are sequences   *)
(*       (one entry per input interface), at most one v[k] is 1.             *)
(* Y...: utils.cdc.synchronize - a signal/record crossing into a domain: on  *)
(*       every edge of the output domain (and on no other edge) each input   *)
(*       leaf moves one stage further; output leaves are wired back at once. *)
(* G...: io.led.NumberToSevenSegmentHex;  R...: io.led.NumberToBitBar        *)
EXTENDS Kit
HInit(c) == [x |-> 0]
HSel(e, q) == IF \E k \in 1..Len(q) : T(e.v[k]) THEN q[CHOOSE k \in 1..Len(q) : T(e.v[k])] ELSE 0
RECURSIVE OrB(_, _)
OrB(p, w) == IF p = <<>> THEN Rep(0, w) ELSE LET r == OrB(Tail(p), w) IN [i \in 1..w |-> Max2(Head(p)[i], r[i])]
HStep(c, s, e) ==
  [s |-> s,
   v |-> Judge(<< <<"muxed signal comes from the valid interface", e.qa = HSel(e, e.a) /\ e.qb = HSel(e, e.b)>>,
                  <<"ored signal", e.qo = OrB(e.o, c.w)>>,
                  <<"passed back signal", \A k \in 1..Len(e.r) : e.r[k] = e.p>> >>)]

\* s.ch: c.stages values of the input leaves, oldest last
YInit(c) == [ch |-> Rep(Rep(0, c.nin), c.stages)]
YNext(c, s, e) == IF T(e.edge) THEN [ch |-> <<e.i>> \o SubSeq(s.ch, 1, c.stages - 1)] ELSE s
YStep(c, s, e) ==
  [s |-> YNext(c, s, e),
   v |-> Judge(<< <<"synchronized input", e.q = s.ch[c.stages]>>, <<"output direction", e.bo = e.o>> >>)]

Font == << <<1,1,1,1,1,1,0>>, <<0,1,1,0,0,0,0>>, <<1,1,0,1,1,0,1>>, <<1,1,1,1,0,0,1>>, <<0,1,1,0,0,1,1>>, <<1,0,1,1,0,1,1>>,
           <<1,0,1,1,1,1,1>>, <<1,1,1,0,0,0,0>>, <<1,1,1,1,1,1,1>>, <<1,1,1,1,0,1,1>>, <<1,1,1,0,1,1,1>>, <<0,0,1,1,1,1,1>>,
           <<1,0,0,1,1,1,0>>, <<0,1,1,1,1,0,1>>, <<1,0,0,1,1,1,1>>, <<1,0,0,0,1,1,1>> >>   \* segments a..g of 0..F
GDigit(q, n) == q = Font[n + 1]
GShow(e, ds, dots) == \A k \in 1..Len(ds) : GDigit(e.seg[k], ds[k]) /\ e.dot[k] = dots[k]
GInit(c) == [d |-> <<>>, p |-> <<>>]
GStep(c, s, e) ==
  [s |-> [d |-> e.d, p |-> e.p],
   v |-> Judge(<< <<"shown digits", IF T(c.reg) THEN s.d = <<>> \/ GShow(e, s.d, s.p) ELSE GShow(e, e.d, e.p)>> >>)]

(* bit bar: 0 up to min, all at and above max, in between linear 1..w-1      *)
RBits(c, v) == LET step == (c.max - c.min) \div (c.w - 2) IN
               IF v >= c.max THEN c.w ELSE IF v <= c.min THEN 0 ELSE 1 + Min2(c.w - 2, (v - c.min) \div step)
RInit(c) == [n |-> 0]
RStep(c, s, e) == [s |-> [n |-> RBits(c, e.v)],
                   v |-> Judge(<< <<"bar length", e.bar = [i \in 1..c.w |-> B(i <= s.n)]>> >>)]
=============================================================================
