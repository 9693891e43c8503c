-------------------------------- MODULE Uart --------------------------------
(* Asynchronous serial: transmitters seen on the line, and the receiver.     *)
EXTENDS Kit
RECURSIVE XorAll(_)
XorAll(b) == IF b = <<>> THEN 0 ELSE (Head(b) + XorAll(Tail(b))) % 2
Parity(kind, data) == CASE kind = "none" -> <<>> [] kind = "mark" -> <<1>> [] kind = "space" -> <<0>>
                        [] kind = "even" -> <<XorAll(data)>> [] OTHER -> <<1 - XorAll(data)>>
(* the frame of a word given as its bits, least significant first            *)
Frame(kind, data) == <<0>> \o data \o Parity(kind, data) \o <<1>>
RECURSIVE Frames(_, _, _)
Frames(kind, w, data) == IF data = <<>> THEN <<>>
                         ELSE <<Frame(kind, SubSeq(data, 1, w))>> \o Frames(kind, w, Drop(data, w))

(* ---- transmitters, one event per clock cycle ------------------------------ *)
(* c: par, w = bits per frame, lat = latency bound, cap = frames that may wait *)
(* e: o line, acc (a word was handed over in this cycle), d its bits, rdy, div *)
(*    drv = driving flag (-1 if there is none)                                 *)
TxInit(c) == [q |-> <<>>, cur |-> <<>>, left |-> 0, wait |-> 0, free |-> 0, div |-> 1]
TxStep(c, s, e) ==
  LET begins == s.cur = <<>> /\ e.o = 0
      cur  == IF begins /\ s.q # <<>> THEN s.q[1] ELSE s.cur
      left == IF begins THEN e.div ELSE s.left
      q1   == IF begins THEN Drop(s.q, 1) ELSE s.q
      q2   == IF e.acc = 1 THEN q1 \o Frames(c.par, c.w, e.d) ELSE q1
      busy == cur # <<>>
      last == busy /\ left = 1
      wait == IF ~busy /\ s.q # <<>> THEN s.wait + 1 ELSE 0
      free == IF ~busy /\ s.q = <<>> THEN Min2(s.free + 1, 4) ELSE 0
  IN [s |-> [q |-> q2, cur |-> IF last THEN Tail(cur) ELSE cur, left |-> IF last THEN e.div ELSE IF busy THEN left - 1 ELSE 0,
             wait |-> wait, free |-> free, div |-> e.div],
      v |-> Judge(<< <<"frame out of nothing", begins => s.q # <<>> >>,
                     <<"line level", (busy /\ cur # <<>>) => e.o = cur[1]>>,
                     <<"a word taken is sent in bounded time", wait < c.lat * e.div + 3>>,
                     <<"ready again in bounded time", free > 3 => e.rdy = 1>>,
                     <<"words taken without room", Len(q2) <= c.cap>>,
                     <<"driving flag", e.drv >= 0 => e.drv = B(busy)>> >>)]

(* ---- receiver, one event per clock cycle ---------------------------------- *)
(* c: par, w.  e: i line, ack, div; outputs rdy, d (bits), ov fr pe            *)
RxInit(c) == [t |-> -1, div |-> 1, got |-> <<>>, done |-> FALSE, rdy |-> 0, d |-> Rep(0, c.w), ov |-> 0, fr |-> 0, pe |-> 0]
FrameLen(c) == c.w + (IF c.par = "none" THEN 2 ELSE 3)
RxStep(c, s, e) ==
  LET \* t: cycles since the falling edge that began the frame was seen (-1: idle)
      begin == s.t < 0 /\ ~s.done /\ e.i = 0
      t == IF s.t >= 0 THEN s.t ELSE 0
      smp == s.t > 0 /\ t >= 1 + (e.div \div 2) /\ (t - 1 - (e.div \div 2)) % e.div = 0
      got == IF smp THEN Append(s.got, e.i) ELSE s.got
      full == smp /\ Len(got) = FrameLen(c)
      data == SubSeq(s.got, 2, c.w + 1)
      take == s.done /\ e.ack = 1
      p == Parity(c.par, data)
  IN [s |-> [t |-> IF begin THEN 1 ELSE IF full \/ s.t < 0 THEN -1 ELSE t + 1,
             div |-> e.div, got |-> IF begin THEN <<>> ELSE got, done |-> full,
             rdy |-> IF e.ack = 1 THEN B(s.done) ELSE s.rdy,
             d  |-> IF take THEN data ELSE s.d,
             ov |-> IF s.done THEN 1 - e.ack ELSE s.ov,
             fr |-> IF take THEN B(~(s.got[1] = 0 /\ s.got[Len(s.got)] = 1)) ELSE s.fr,
             pe |-> IF take THEN B(SubSeq(s.got, c.w + 2, c.w + 1 + Len(p)) # p) ELSE s.pe],
      v |-> Judge(<< <<"ready strobe", e.rdy = s.rdy>>, <<"received data", e.rdy = 1 => e.d = s.d>>,
                     <<"overflow flag", e.ov = s.ov>>, <<"frame error flag", e.fr = s.fr>>,
                     <<"parity error flag", e.pe = s.pe>> >>)]
=============================================================================
