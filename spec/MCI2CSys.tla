------------------------------- MODULE MCI2CSys -----------------------------
(* The system-level view follows from the two component specifications: an   *)
(* initiator that puts its commands on the wire bit by bit (as I2C.tla says),*)
(* a target as in I2CT.tla, their composition accepted by I2CSys.tla.        *)
EXTENDS I2CT, I2CSys, TLC
VARIABLES t, z, ok, cmd, n, last
vars == <<t, z, ok, cmd, n, last>>
Cfg == [addr |-> <<0, 1, 0, 1, 0, 0, 0>>]
Bytes == { <<0, 1, 0, 1, 0, 0, 0, 0>>, <<0, 1, 0, 1, 0, 0, 0, 1>>, <<0, 1, 0, 1, 0, 1, 0, 1>>, <<1, 1, 1, 1, 1, 1, 1, 1>> }
Pls(st, m, ak, rd) == LET e == [op |-> "B", m |-> m, line |-> Min2(m, ADrive(st, [ak |-> ak])), pulse |-> 0, ak |-> ak, rd |-> rd]
                          f == AFall(st)
                      IN [st |-> APulse(Cfg, st, e, e.line), line |-> e.line, start |-> f.start, write |-> f.write,
                          wd |-> IF f.write = 1 THEN st.sh ELSE <<>>, read |-> B(AReads(st, e.line)), stop |-> B(AStops(st, e.line))]
\* nine pulses
RECURSIVE Nine(_, _, _, _)
Nine(st, ms, ak, rd) == IF ms = <<>> THEN [st |-> st, lines |-> <<>>, start |-> 0, write |-> 0, read |-> 0, stop |-> 0, wd |-> <<>>]
  ELSE LET p == Pls(st, Head(ms), ak, rd) r == Nine(p.st, Tail(ms), ak, rd)
       IN [st |-> r.st, lines |-> <<p.line>> \o r.lines, start |-> p.start + r.start, write |-> p.write + r.write, read |-> p.read + r.read,
           stop |-> p.stop + r.stop, wd |-> IF p.write = 1 THEN p.wd ELSE r.wd]
Byte(c, d, k, ak, rd) ==
  LET r == Nine(t, IF c = "write" THEN Append(d, 1) ELSE Append(Rep(1, 8), 1 - k), ak, rd)
      e == [cmd |-> c, d |-> d, k |-> k, ack |-> 1 - r.lines[9], q |-> SubSeq(r.lines, 1, 8), ta |-> ak, rd |-> rd,
            start |-> r.start, stop |-> r.stop, restart |-> 0, write |-> r.write, read |-> r.read, wd |-> r.wd]
      j == ZStep(Cfg, z, e)
  IN t' = r.st /\ z' = j.s /\ ok' = (j.v = "ok") /\ cmd' = c
Cond(c) ==
  \* a repeated START comes out of the clock pulse with SDA high; STOP with SDA low, or in the last pulse
  LET pulse == c = "stop" \/ cmd # "stop"
      inlast == cmd = "read" /\ last = 1 /\ c = "stop"
      p == Pls(t, IF c = "stop" THEN 0 ELSE 1, 0, Rep(0, 8))
      t1 == IF pulse /\ cmd # "none" /\ ~inlast /\ cmd # "start" THEN p.st ELSE t
      e == [cmd |-> c, d |-> Rep(0, 8), k |-> 0, ack |-> 0, q |-> Rep(0, 8), ta |-> 0, rd |-> Rep(0, 8), start |-> 0, write |-> 0, read |-> 0, wd |-> <<>>,
            stop |-> B(c = "stop" /\ Selected(t1)), restart |-> B(c = "start" /\ Selected(t1))]
      j == ZStep(Cfg, z, e)
  IN /\ t' = IF c = "start" THEN [ph |-> "addr", n |-> 0, sh |-> <<>>, out |-> <<>>] ELSE [t1 EXCEPT !.ph = "idle"]
     /\ z' = j.s /\ ok' = (j.v = "ok") /\ cmd' = c
Init == t = AInit(Cfg) /\ z = ZInit(Cfg) /\ ok = TRUE /\ cmd = "stop" /\ n = 0 /\ last = 0
Fit(c) == CASE z.ph = "off" -> c = "start" [] z.ph = "addr" -> c = "write" [] z.ph = "sel-w" -> c \in {"write", "start", "stop"}
            [] z.ph = "sel-r" -> c = "read" [] OTHER -> c \in {"start", "stop"}
Next == /\ n < 6 /\ n' = n + 1
        /\ \/ \E b \in Bytes, ak \in 0..1, rd \in Bytes : Fit("write") /\ Byte("write", b, 0, ak, rd) /\ last' = 0
           \/ \E k, ak \in 0..1, rd \in Bytes : Fit("read") /\ Byte("read", Rep(0, 8), k, ak, rd) /\ last' = k
           \/ \E c \in {"start", "stop"} : Fit(c) /\ Cond(c) /\ last' = 0
Spec == Init /\ [][Next]_vars
Sound == ok
=============================================================================
