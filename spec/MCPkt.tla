------------------------------- MODULE MCPkt --------------------------------
(* PacketListStreamer as a composition: a sequencer of packets around the    *)
(* ConstantStreamGenerator, observed by the abstract specification K.        *)
EXTENDS Gen, TLC
CONSTANTS LENS
L == <<2, 1, 3>>
Packets == [k \in 1..Len(LENS) |-> [j \in 1..LENS[k] |-> 10 * k + j]]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
RECURSIVE Off(_)
Off(k) == IF k <= 1 THEN 0 ELSE Off(k - 1) + LENS[k - 1]
GC == [words |-> Cat(Packets), nbytes |-> Len(Cat(Packets)), bpw |-> 1, vw |-> 1, lastb |-> 1, hasmax |-> 1]
KC == [packets |-> Packets, gap |-> 4]
VARIABLES q, cur, g, k, verdict
vars == <<q, cur, g, k, verdict>>
Init == q = "INIT" /\ cur = 1 /\ g = GInit(GC) /\ k = KInit(KC) /\ verdict = "ok"
Next == \E start, rdy \in {0,1} :
  LET gst == B(q = "SEND" \/ (q = "INIT" /\ start = 1))
      ge  == [start |-> gst, sp |-> Off(cur), ml |-> LENS[cur], rdy |-> rdy]
      v   == GValid(GC, g, ge)
      fin == g.ph = "done" /\ q = "WAIT"
      dn  == fin /\ cur = Len(LENS)
      ke  == [start |-> IF q = "INIT" THEN start ELSE 0, rdy |-> rdy, v |-> v,
              p |-> IF v = 1 THEN GC.words[g.pos + 1] ELSE 0, f |-> B(v = 1 /\ g.first),
              l |-> B(v = 1 /\ GLast(GC, g, ge)), done |-> B(dn)]
      r   == KStep(KC, k, ke)
  IN /\ g' = GNext(GC, g, ge)
     /\ q' = IF gst = 1 THEN "WAIT" ELSE IF dn THEN "INIT" ELSE IF fin THEN "SEND" ELSE q
     /\ cur' = IF dn THEN 1 ELSE IF fin THEN cur + 1 ELSE cur
     /\ k' = r.s /\ verdict' = r.v
Spec == Init /\ [][Next]_vars
Refines == verdict = "ok"
=============================================================================
