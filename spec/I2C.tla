-------------------------------- MODULE I2C ---------------------------------
(* I2C at the level of the two open-drain lines.                             *)
(*                                                                           *)
(* A bus history is a sequence of line levels.  It is decoded into symbols:  *)
(*    "0","1"  a data bit, sampled when SCL rises                            *)
(*    "S"      START (SDA falls while SCL is high),  "P"  STOP               *)
(*    A START/STOP in the high phase of a clock pulse that began in the same *)
(*    command cancels that pulse's bit (the pulse was part of the condition).*)
(*                                                                           *)
(* I...: io.i2c.I2CInitiator against its command port:                       *)
(*   event: n (cycles in which nothing changes) scl sda (lines) oc od (levels*)
(*          the initiator drives) busy ack q, cmd in "none","start","stop",  *)
(*          "write","read" (strobe) with d (data bits) and k (ack bit).      *)
(*   c.q = period div 4, c.half = period div 2, c.slack                      *)
EXTENDS Kit

Sym(scl0, sda0, scl1, sda1) ==
  CASE scl0 = 0 /\ scl1 = 1 -> IF T(sda1) THEN <<"1">> ELSE <<"0">>
    [] scl0 = 1 /\ scl1 = 1 /\ sda0 = 1 /\ sda1 = 0 -> <<"S">>
    [] scl0 = 1 /\ scl1 = 1 /\ sda0 = 0 /\ sda1 = 1 -> <<"P">>
    [] OTHER -> <<>>
BitSym(b) == IF T(b) THEN "1" ELSE "0"
(* push a symbol; S/P absorb a bit of the same clock pulse *)
Push(got, sy, fresh) ==
  IF sy = <<>> THEN got
  ELSE IF sy[1] \in {"S", "P"} /\ fresh /\ got # <<>> THEN Append(SubSeq(got, 1, Len(got) - 1), sy[1])
  ELSE Append(got, sy[1])

(* --- what each command must do on the wire -------------------------------- *)
\* dev: the levels the other devices let through, i.e. the line given the own drive
CmdBits(cmd) == IF cmd \in {"write", "read"} THEN 9 ELSE 1
Wanted(cmd) == CASE cmd = "start" -> <<"S">> [] cmd = "stop" -> <<"P">> [] OTHER -> <<>>
(* level the initiator drives during clock pulse i of the command            *)
OwnBit(cmd, d, k, i) == CASE cmd = "write" -> IF i <= 8 THEN d[i] ELSE 1
                          [] cmd = "read"  -> IF i <= 8 THEN 1 ELSE 1 - k
                          [] OTHER -> 1
(* quarter periods a command takes                                           *)
Quarters(cmd) == IF cmd \in {"start", "stop"} THEN 5 ELSE 38

IInit(c) == [ph |-> "boot", cmd |-> "none", d |-> Rep(0, 8), k |-> 0, got |-> <<>>, own |-> <<>>, fresh |-> FALSE,
             scl |-> 1, sda |-> 1, oc |-> 1, od |-> 1, hi |-> c.half, lo |-> c.half, since |-> c.half, t |-> 0, ack |-> 0, q |-> Rep(0, 8)]
FBits(got) == [i \in 1..8 |-> IF got[i] = "1" THEN 1 ELSE 0]
IComplete(c, s) ==       \* the wire behaviour of the command that just ended
  IF s.cmd \in {"start", "stop"} THEN s.got = Wanted(s.cmd)
  ELSE Len(s.got) = 9 /\ \A i \in 1..9 : s.got[i] \in {"0", "1"} /\ s.own[i] = OwnBit(s.cmd, s.d, s.k, i)
\* one event: line levels change at its beginning and then hold for e.n cycles
IStep(c, s, e) ==
  LET sy    == Sym(s.scl, s.sda, e.scl, e.sda)
      rise  == s.scl = 0 /\ e.scl = 1
      fall  == s.scl = 1 /\ e.scl = 0
      ofall == s.oc = 1 /\ e.oc = 0
      orise == s.oc = 0 /\ e.oc = 1
      dchg  == e.od # s.od
      fr    == IF rise THEN TRUE ELSE IF fall THEN FALSE ELSE s.fresh
      got   == Push(s.got, sy, s.fresh)
      own   == IF rise THEN Append(s.own, e.od) ELSE s.own
      ending == s.ph = "run" /\ ~T(e.busy)
      take  == e.cmd # "none" /\ ~T(e.busy)
      done  == [s EXCEPT !.got = got, !.own = own]
      idle  == s.ph \in {"boot", "idle"} \/ ending
      ticks == IF e.scl = 0 /\ e.oc = 1 THEN 0 ELSE e.n      \* a stretched clock does not count
      base  == [ph |-> IF ending \/ (s.ph = "boot" /\ ~T(e.busy)) THEN "idle" ELSE s.ph,
                cmd |-> IF ending THEN "none" ELSE s.cmd, d |-> s.d, k |-> s.k,
                got |-> IF ending THEN <<>> ELSE got, own |-> IF ending THEN <<>> ELSE own, fresh |-> IF ending THEN FALSE ELSE fr,
                scl |-> e.scl, sda |-> e.sda, oc |-> e.oc, od |-> e.od,
                hi |-> IF e.scl = 1 THEN (IF s.scl = 1 THEN Min2(s.hi + e.n, 100000) ELSE e.n) ELSE s.hi,
                lo |-> IF e.oc = 0 THEN (IF s.oc = 0 THEN Min2(s.lo + e.n, 100000) ELSE e.n) ELSE s.lo,
                since |-> IF dchg THEN e.n ELSE Min2(s.since + e.n, 100000),
                t |-> IF ending THEN 0 ELSE s.t + ticks,
                ack |-> IF ending /\ s.cmd = "write" THEN (IF Len(got) = 9 /\ got[9] = "0" THEN 1 ELSE 0) ELSE s.ack,
                q |-> IF ending /\ s.cmd = "read" /\ Len(got) >= 8 THEN FBits(got) ELSE s.q]
  IN [s |-> IF take THEN [base EXCEPT !.ph = "run", !.cmd = e.cmd, !.d = e.d, !.k = e.k, !.t = 0] ELSE base,
      v |-> Judge(<<
        <<"no bus activity without a command", idle /\ ~ending => (e.oc = s.oc /\ e.od = s.od)>>,
        <<"command ended with the right symbols on the bus", ending => IComplete(c, done)>>,
        <<"received acknowledge", ending /\ s.cmd = "write" => e.ack = base.ack>>,
        <<"received data", ending /\ s.cmd = "read" => e.q = base.q>>,
        <<"acknowledge and data are kept", ~ending /\ s.ph # "run" => (e.q = s.q /\ e.ack = s.ack)>>,
        <<"SDA is changed only while SCL is low, or for a START/STOP",
          dchg => \/ e.oc = 0 /\ s.oc = 0
                  \/ e.od = 0 /\ s.cmd = "start" /\ e.scl = 1
                  \/ e.od = 1 /\ s.cmd = "stop" /\ e.scl = 1>>,
        <<"SCL high long enough", ofall => s.hi >= c.half>>,
        <<"SCL low long enough", orise => s.lo >= c.half>>,
        <<"SDA set up before SCL rises, held after START", (orise \/ ofall) => s.since >= c.q>>,
        <<"busy while a command runs, idle afterwards", s.ph = "idle" /\ e.busy = 1 => FALSE>>,
        <<"command comes to an end", s.ph = "run" => s.t <= Quarters(s.cmd) * (c.q + 1 + c.slack) + 8>> >>)]

(* --- U...: any transmitter whose packets must appear on the bus:            *)
(*   stream.i2c.I2CStreamTransmitter.  Event as above plus w (word accepted   *)
(*   by the stream, or <<>>: <<bits, first, last>>).                          *)
Pack(w) == (IF T(w.first) THEN <<"S">> ELSE <<>>) \o [i \in 1..8 |-> BitSym(w.d[i])] \o <<"A">> \o (IF T(w.last) THEN <<"P">> ELSE <<>>)
\* remove the symbols in l from the front of the expected ones; <<"!">> if they do not fit
RECURSIVE Match(_, _)
Match(exp, l) == IF l = <<>> THEN exp
                 ELSE IF exp = <<>> \/ ~(Head(l) = Head(exp) \/ (Head(exp) = "A" /\ Head(l) \in {"0", "1"})) THEN <<"!">>
                 ELSE Match(Tail(exp), Tail(l))
UInit(c) == [scl |-> 1, sda |-> 1, pend |-> <<>>, exp |-> <<>>, oc |-> 1, od |-> 1, quiet |-> 0]
UStep(c, s, e) ==
  LET sy   == Sym(s.scl, s.sda, e.scl, e.sda)
      rise == s.scl = 0 /\ e.scl = 1
      fall == s.scl = 1 /\ e.scl = 0
      cond == sy # <<>> /\ sy[1] \in {"S", "P"}
      \* a clock pulse is a bit when it ends; a START/STOP in it replaces the bit, unless an acknowledge is due
      emit == IF cond THEN (IF s.pend # <<>> /\ s.exp # <<>> /\ Head(s.exp) = "A" THEN s.pend \o sy ELSE sy)
              ELSE IF fall THEN s.pend ELSE <<>>
      left == Match(s.exp, emit)
      ok   == left # <<"!">>
      exp  == (IF ok THEN left ELSE <<>>) \o (IF e.w = <<>> THEN <<>> ELSE Pack(e.w[1]))
      moved == e.oc # s.oc \/ e.od # s.od \/ exp = <<>> \/ (e.scl = 0 /\ e.oc = 1)
  IN [s |-> [scl |-> e.scl, sda |-> e.sda, pend |-> IF rise THEN sy ELSE IF cond \/ fall THEN <<>> ELSE s.pend,
             exp |-> exp, oc |-> e.oc, od |-> e.od, quiet |-> IF moved THEN 0 ELSE s.quiet + e.n],
      v |-> Judge(<< <<"the bus carries the packets, nothing else", ok>>,
                     <<"SDA changes only while SCL is low, or for a START/STOP", e.od # s.od => (e.oc = 0 /\ s.oc = 0) \/ cond>>,
                     <<"everything accepted is sent in time", moved \/ s.quiet + e.n <= c.wait>>,
                     <<"everything is sent at the end", (e.end = 1) => exp = <<>>>> >>)]
=============================================================================
