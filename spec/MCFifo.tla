------------------------------- MODULE MCFifo -------------------------------
(* Exhaustive check of the FIFO design.  With HIST the environment's         *)
(* complete past is kept, so the end-to-end guarantee can be stated:         *)
(*   what the reader has finally consumed is, in order and without loss or   *)
(*   duplication, a prefix of what the writer has published; what was        *)
(*   discarded by the writer is never seen.                                  *)
EXTENDS Fifo, FiniteSets, TLC
CONSTANTS DEPTH, HIST, MAXN
VARIABLES s, inp, pub, open, seen, back, n
vars == <<s, inp, pub, open, seen, back, n>>
C == [depth |-> DEPTH]
Bits == {0, 1}
\* one transaction command per port and cycle
Inputs == [we: Bits, wc: Bits, wd: Bits, re: Bits, rc: Bits, rd: Bits, d: IF HIST THEN {n} ELSE Bits]

Init == /\ s = FInit(C) /\ inp = [we |-> 0, wc |-> 0, wd |-> 0, re |-> 0, rc |-> 0, rd |-> 0, d |-> 0]
        /\ pub = <<>> /\ open = <<>> /\ seen = <<>> /\ back = <<>> /\ n = 0

\* independent bookkeeping of what a user would expect
Hist(i) ==
  LET wr == DoWrite(C, s, i)
      rdv == DoRead(s, i)
  IN /\ n' = IF wr THEN n + 1 ELSE n
     /\ pub' = IF T(i.wc) THEN pub \o open ELSE pub
     /\ open' = IF T(i.wd) THEN <<>>
                ELSE (IF T(i.wc) THEN <<>> ELSE open) \o (IF wr THEN <<i.d>> ELSE <<>>)
     /\ seen' = IF T(i.rc) THEN seen \o back ELSE seen
     /\ back' = IF T(i.rd) THEN <<>>
                ELSE (IF T(i.rc) THEN <<>> ELSE back) \o (IF rdv THEN <<s.q[s.r + 1]>> ELSE <<>>)

Next == \E i \in Inputs :
          /\ Legal(i)
          /\ (HIST => n < MAXN \/ i.we = 0)
          /\ inp' = i
          /\ s' = FNext(C, s, i)
          /\ IF HIST THEN Hist(i) ELSE UNCHANGED <<pub, open, seen, back, n>>
Spec == Init /\ [][Next]_vars
View == <<s, pub, open, seen, back, n>>

TypeOK == 0 <= s.r /\ s.r <= s.w /\ s.w <= Len(s.q) /\ Len(s.q) <= DEPTH
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
InOrderExactlyOnce == HIST => IsPre(seen \o back, pub)
NothingLost == HIST => /\ pub = seen \o SubSeq(s.q, 1, s.w)
                       /\ open = SubSeq(s.q, s.w + 1, Len(s.q))
                       /\ back = SubSeq(s.q, 1, s.r)
=============================================================================
