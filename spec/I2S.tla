-------------------------------- MODULE I2S ---------------------------------
(* I2S / left justified serial audio, as seen on the rising edges of the bit  *)
(* clock (where a codec samples).  cfg: std 1 standard, 0 left justified;     *)
(* w sample width; depth FIFO depth.                                          *)
(* Transmitter events                                                         *)
(*   push  f, b     a sample (first flag, bits MSB first) entered the FIFO    *)
(*   rise  ws, d, u, m, lev   word select, data, number of underflow and      *)
(*                  mismatch strobes since the previous rise, FIFO level      *)
(*   en    v        enable changed                                            *)
(* Receiver events                                                            *)
(*   rise  ws, d, lev,  en v, pop f, l, b                                     *)
EXTENDS Kit
Left(c, ws) == IF ws = (IF c.std = 1 THEN 0 ELSE 1) THEN 1 ELSE 0
Zero(c) == [i \in 1..c.w |-> 0]

(* mode 0: disabled, 1: enabled, no right channel seen yet, 2: running         *)
TxI2SInit(c) == [q |-> <<>>, mode |-> 0, ch |-> 2, rest |-> <<>>, pu |-> 0, pm |-> 0]
TxI2SStep(c, s, e) ==
  IF e.op = "push" THEN
    [s |-> [s EXCEPT !.q = Append(@, [f |-> e.f, b |-> e.b])],
     v |-> Judge(<< <<"accepts no more samples than it can store", Len(s.q) < c.depth>> >>)]
  ELSE IF e.op = "en" THEN
    [s |-> [s EXCEPT !.mode = e.v, !.rest = <<>>, !.ch = 2], v |-> "ok"]
  ELSE
    LET l == Left(c, e.ws)
        start == s.mode = 2 /\ l # s.ch
        empty == Len(s.q) = 0
        fits == ~empty /\ Head(s.q).f = l
        word == IF fits THEN Head(s.q).b ELSE Zero(c)
        u == B(start /\ empty)
        m == B(start /\ ~empty /\ ~fits)
        q2 == IF start /\ fits THEN Tail(s.q) ELSE s.q
        (* standard format: the bit on this edge still belongs to the old channel *)
        cur == IF start /\ c.std = 0 THEN word ELSE s.rest
        now == IF start /\ c.std = 1 THEN <<>> ELSE cur
        xu == IF c.std = 1 THEN s.pu ELSE u
        xm == IF c.std = 1 THEN s.pm ELSE m
    IN [s |-> [s EXCEPT !.q = q2,
                        !.mode = IF s.mode = 1 /\ l = 0 THEN 2 ELSE s.mode,
                        !.ch = l,
                        !.rest = IF start /\ c.std = 1 THEN word ELSE IF now = <<>> THEN <<>> ELSE Tail(now),
                        !.pu = u, !.pm = m],
        v |-> Judge(<< <<"sends the bits of the sample of this channel, MSB first",
                         now = <<>> \/ e.d = Head(now)>>,
                       <<"underflow is strobed once, at the start of a channel without a sample", e.u = xu>>,
                       <<"mismatch is strobed once, at the start of a channel whose sample is of the other channel", e.m = xm>>,
                       <<"the level is the number of stored samples", e.lev = Len(IF c.std = 1 THEN s.q ELSE q2)>>,
                       <<"offers room while it has any", e.rdy = B(Len(IF c.std = 1 THEN s.q ELSE q2) < c.depth)>> >>)]

(* Receiver: got is the sample being received; it is stored when the first bit of *)
(* the next channel is due.                                                        *)
RxI2SInit(c) == [q |-> <<>>, mode |-> 0, ch |-> 2, got |-> <<>>, take |-> 0]
RxI2SStep(c, s, e) ==
  IF e.op = "pop" THEN
    LET empty == Len(s.q) = 0
        h == IF empty THEN [f |-> 2, b |-> <<>>] ELSE Head(s.q)
    IN [s |-> [s EXCEPT !.q = IF empty THEN <<>> ELSE Tail(@)],
        v |-> Judge(<< <<"delivers only received samples", ~empty>>,
                       <<"delivers the samples as received, in order", empty \/ e.b = h.b>>,
                       <<"first marks the left and last the right channel", empty \/ (e.f = h.f /\ e.l = 1 - h.f)>> >>)]
  ELSE IF e.op = "en" THEN
    [s |-> [s EXCEPT !.mode = e.v, !.got = <<>>, !.take = 0, !.ch = 2], v |-> "ok"]
  ELSE
    LET l == Left(c, e.ws)
        change == s.mode = 2 /\ l # s.ch
        first == IF c.std = 1 THEN s.take = 1 ELSE change
        full == Len(s.q) >= c.depth
        done == Len(s.got) = c.w
    IN [s |-> [s EXCEPT !.q = IF first /\ done /\ ~full THEN Append(@, [f |-> 1 - l, b |-> s.got]) ELSE @,
                        !.mode = IF s.mode = 1 /\ l = 0 THEN 2 ELSE s.mode,
                        !.ch = l,
                        !.got = IF first THEN <<e.d>> ELSE IF s.got # <<>> /\ ~done THEN Append(@, e.d) ELSE @,
                        !.take = B(change /\ c.std = 1)],
        v |-> Judge(<< <<"the level is the number of received samples not yet read", e.lev = Len(s.q)>>,
                       <<"offers a sample exactly while there is one", e.val = B(Len(s.q) > 0)>> >>)]
=============================================================================
