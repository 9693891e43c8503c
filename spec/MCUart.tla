------------------------------ MODULE MCUart --------------------------------
(* An ideal line (every frame of nominal bit time, any gap between frames,   *)
(* some with a flipped bit) into the receiver specification, while the       *)
(* transmitter specification watches the undamaged line: nothing is lost.    *)
EXTENDS Uart, TLC
CONSTANTS Par, Div
W == 2
Cfg == [par |-> Par, w |-> W, lat |-> 3, cap |-> 1]
VARIABLES tx, rx, cur, left, data, flip, got, ok
vars == <<tx, rx, cur, left, data, flip, got, ok>>
Words == [1..W -> 0..1]
Init == tx = TxInit(Cfg) /\ rx = RxInit(Cfg) /\ cur = <<>> /\ left = 0 /\ data = <<0, 0>> /\ flip = 0 /\ got = TRUE /\ ok = TRUE
Line == IF cur = <<>> THEN 1 ELSE cur[1]
(* the bit at position flip of the frame (1: start bit) is damaged for the receiver only *)
L == FrameLen(Cfg)
Pos == L - Len(cur) + 1
Seen == IF cur # <<>> /\ flip = Pos THEN 1 - Line ELSE Line
Damaged == flip # 0
Cycle(acc, d) ==
  LET t == TxStep(Cfg, tx, [o |-> Line, acc |-> acc, d |-> d, rdy |-> 1, div |-> Div, drv |-> B(cur # <<>>)])
      r == RxStep(Cfg, rx, [i |-> Seen, ack |-> 1, div |-> Div, rdy |-> rx.rdy, d |-> rx.d, ov |-> rx.ov, fr |-> rx.fr, pe |-> rx.pe])
  IN tx' = t.s /\ rx' = r.s /\ ok' = (ok /\ t.v = "ok" /\ r.v = "ok")
Next ==
  \/ /\ cur = <<>> /\ tx.q = <<>> /\ \E d \in Words, f \in {0, 2, L - 1} :
        /\ Cycle(1, d) /\ data' = d /\ cur' = Frame(Par, d) /\ left' = Div /\ flip' = f /\ got' = FALSE
        /\ (rx.t < 0 /\ ~rx.done /\ got)
  \/ /\ cur = <<>> /\ tx.q = <<>> /\ Cycle(0, <<>>) /\ UNCHANGED <<data, cur, left, flip>> /\ got' = (got \/ rx'.rdy = 1)
  \/ /\ cur # <<>> /\ Cycle(0, <<>>)
     /\ cur' = IF left = 1 THEN Tail(cur) ELSE cur
     /\ left' = IF left = 1 THEN Div ELSE left - 1
     /\ got' = (got \/ rx'.rdy = 1)
     /\ UNCHANGED <<data, flip>>
Spec == Init /\ [][Next]_vars
NoVerdict == ok
Arrives == (cur = <<>> /\ ~got) => (tx.q # <<>>)      \* received by the end of the stop bit
Right == (rx.rdy = 1 /\ ~Damaged) => rx.d = data /\ rx.fr = 0 /\ rx.pe = 0
Detect == (rx.rdy = 1 /\ Damaged /\ Par \in {"even", "odd"}) => rx.pe = 1
=============================================================================
