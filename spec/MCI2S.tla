------------------------------- MODULE MCI2S --------------------------------
(* Transmitter specification -> line -> receiver specification, any channel   *)
(* lengths, any producer, the receiver enabled at any time: every word that    *)
(* is sent in a channel the receiver has seen from its start is received.      *)
EXTENDS I2S, TLC
CONSTANTS Std, Depth
W == 2
Cfg == [std |-> Std, w |-> W, depth |-> Depth]
VARIABLES tx, rx, ch, n, word, prev, ok, okw
vars == <<tx, rx, ch, n, word, prev, ok, okw>>
Samples == {[f |-> f, b |-> b] : f \in 0..1, b \in [1..W -> 0..1]}
Init == /\ tx = [TxI2SInit(Cfg) EXCEPT !.mode = 1] /\ rx = RxI2SInit(Cfg)
        /\ ch = 0 /\ n = 0 /\ word = <<>> /\ prev = <<>> /\ ok = TRUE /\ okw = TRUE
WS(l) == IF Std = 1 THEN 1 - l ELSE l
Min == IF Std = 1 THEN W + 1 ELSE W
Rise(l, d) ==
  LET start == tx.mode = 2 /\ l # tx.ch
      empty == tx.q = <<>>
      fits == ~empty /\ Head(tx.q).f = l
      w2 == IF start THEN (IF fits THEN Head(tx.q).b ELSE Zero(Cfg)) ELSE word
      cur == IF start /\ Std = 0 THEN w2 ELSE IF start THEN <<>> ELSE tx.rest
      bit == IF cur = <<>> THEN d ELSE Head(cur)
      q2 == IF start /\ fits THEN Tail(tx.q) ELSE tx.q
      lv == IF Std = 1 THEN Len(tx.q) ELSE Len(q2)
      t == TxI2SStep(Cfg, tx, [op |-> "rise", ws |-> WS(l), d |-> bit, lev |-> lv, rdy |-> B(lv < Depth),
                               u |-> IF Std = 1 THEN tx.pu ELSE B(start /\ empty), m |-> IF Std = 1 THEN tx.pm ELSE B(start /\ ~empty /\ ~fits)])
      r == RxI2SStep(Cfg, rx, [op |-> "rise", ws |-> WS(l), d |-> bit, lev |-> Len(rx.q), val |-> B(rx.q # <<>>)])
      grew == Len(r.s.q) > Len(rx.q)
  IN /\ tx' = t.s /\ rx' = r.s /\ word' = w2 /\ prev' = IF start THEN word ELSE prev
     /\ ok' = (ok /\ t.v = "ok" /\ r.v = "ok")
     /\ okw' = (okw /\ (grew => r.s.q[Len(r.s.q)] = [f |-> 1 - l, b |-> prev']))
Next ==
  \/ /\ Len(tx.q) < Depth /\ \E p \in Samples : tx' = TxI2SStep(Cfg, tx, [op |-> "push", f |-> p.f, b |-> p.b]).s
     /\ UNCHANGED <<rx, ch, n, word, prev, ok, okw>>
  \/ /\ rx.mode = 0 /\ rx' = RxI2SStep(Cfg, rx, [op |-> "en", v |-> 1]).s /\ UNCHANGED <<tx, ch, n, word, prev, ok, okw>>
  \/ /\ rx.q # <<>> /\ rx' = [rx EXCEPT !.q = Tail(@)] /\ UNCHANGED <<tx, ch, n, word, prev, ok, okw>>
  \/ /\ n < Min + 1 /\ n' = n + 1 /\ ch' = ch /\ \E d \in 0..1 : Rise(ch, d)
  \/ /\ n >= Min /\ n' = 1 /\ ch' = 1 - ch /\ \E d \in 0..1 : Rise(1 - ch, d)
Spec == Init /\ [][Next]_vars
NoVerdict == ok
Received  == okw
Bounded   == Len(tx.q) <= Depth /\ Len(rx.q) <= Depth
=============================================================================
