-------------------------------- MODULE Shift -------------------------------
(* utils.shiftregister (I: input, O: output), utils.nrziencoder (N),         *)
(* utils.lfsr (F).  Registers are sequences of bits, least significant first.*)
EXTENDS Kit
IInit(c) == Rep(0, c.depth)
INext(c, s, e) == IF T(e.clr) THEN Rep(0, c.depth)
                  ELSE IF T(e.en) THEN <<e.b>> \o SubSeq(s, 1, c.depth - 1) ELSE s
IStep(c, s, e) == [s |-> INext(c, s, e), v |-> Judge(<< <<"register value", e.q = s>> >>)]

OInit(c) == Rep(0, c.depth)
ONext(c, s, e) == IF T(e.we) THEN e.d
                  ELSE IF T(e.en) THEN Tail(s) \o <<IF T(c.rot) THEN s[1] ELSE 0>> ELSE s
OStep(c, s, e) == [s |-> ONext(c, s, e), v |-> Judge(<< <<"serial output", e.q = s[1]>> >>)]

NInit(c) == [y |-> 0]
NStep(c, s, e) == [s |-> [y |-> IF T(e.d) THEN 1 - s.y ELSE s.y], v |-> Judge(<< <<"NRZI level", e.y = s.y>> >>)]

(* Fibonacci LFSR with taps c.taps, bits numbered from 1                     *)
RECURSIVE Xor(_)
Xor(q) == IF q = <<>> THEN 0 ELSE (Head(q) + Xor(Tail(q))) % 2
FInitS(c) == [r |-> c.reset, n |-> 0]
FNextR(c, r) == <<Xor([k \in 1..Len(c.taps) |-> r[c.taps[k]]])>> \o SubSeq(r, 1, Len(r) - 1)
FStep(c, s, e) ==
  [s |-> [r |-> FNextR(c, s.r), n |-> s.n + 1],
   v |-> Judge(<< <<"register sequence", e.q = s.r>>,
                  <<"software generator agrees", e.g = <<>> \/ e.g = s.r>>,
                  <<"period", (e.end = 1) => FNextR(c, s.r) = c.reset>>,
                  <<"never stuck at zero", \E k \in 1..Len(s.r) : s.r[k] = 1>> >>)]
=============================================================================
