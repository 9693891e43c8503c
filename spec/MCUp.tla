-------------------------------- MODULE MCUp --------------------------------
(* Driver, peripheral and line together: what was written while enabled      *)
(* leaves in order, what arrives is read in order unless it overflowed.      *)
EXTENDS Soc, TLC
CONSTANTS TXD, RXD, MAXN
VARIABLES s, wrote, sent, came, read, lost
vars == <<s, wrote, sent, came, read, lost>>
C == [div |-> 5, txd |-> TXD, rxd |-> RXD]
Do(e) == s' = UpNext(C, s, e)
Init == s = UpInit(C) /\ wrote = <<>> /\ sent = <<>> /\ came = <<>> /\ read = <<>> /\ lost = 0
Enable == \E v \in 0..1 : Do([k |-> "enable", v |-> v]) /\ UNCHANGED <<wrote, sent, came, read, lost>>
Write == /\ Len(wrote) < MAXN /\ Len(s.txq) < TXD
         /\ Do([k |-> "txw", v |-> Len(wrote), rdy |-> 1])
         /\ wrote' = IF s.en = 1 THEN Append(wrote, Len(wrote)) ELSE wrote
         /\ UNCHANGED <<sent, came, read, lost>>
Send == /\ s.txq # <<>> /\ sent' = Append(sent, Head(s.txq)) /\ (\E x \in 0..1 : Do([k |-> "line", race |-> x])) /\ UNCHANGED <<wrote, came, read, lost>>
Come == /\ Len(came) < MAXN
        /\ \E f \in 0..1 : Do([k |-> "rx", v |-> Len(came) + lost, fe |-> f, pe |-> 0])
        /\ IF Len(s.rxq) < RXD THEN came' = Append(came, Len(came) + lost) /\ lost' = lost
           ELSE came' = came /\ lost' = Min2(1, lost + 1)
        /\ (Len(s.rxq) >= RXD => lost = 0)
        /\ UNCHANGED <<wrote, sent, read>>
Read == /\ s.rxq # <<>> /\ read' = Append(read, Head(s.rxq)) /\ Do([k |-> "rxr"]) /\ UNCHANGED <<wrote, sent, came, lost>>
Clear == \E i \in 1..3 : Do([k |-> "clr", v |-> [j \in 1..3 |-> B(j = i)]]) /\ UNCHANGED <<wrote, sent, came, read, lost>>
Next == Enable \/ Write \/ Send \/ Come \/ Read \/ Clear
Spec == Init /\ [][Next]_vars
TxOrder == wrote = sent \o s.txq
RxOrder == came = read \o s.rxq
Bounded == Len(s.txq) <= TXD /\ Len(s.rxq) <= RXD
LevelRx == s.rxq # <<>> => UpPend(s)[1] = 1
=============================================================================
