-------------------------------- MODULE MCWb --------------------------------
(* A classic Wishbone initiator on the memory: `truth` is the contents as    *)
(* the initiator knows them from its acknowledged transfers alone.           *)
EXTENDS Soc, TLC
CONSTANTS DEPTH, LANES, RO
VARIABLES s, q, truth, got, age
vars == <<s, q, truth, got, age>>
C == [lanes |-> LANES, g |-> 8, depth |-> DEPTH, ro |-> RO, bytes |-> <<1, 0>>, words |-> <<>>, big |-> 0]
Idle == [cyc |-> 0, stb |-> 0, we |-> 0, adr |-> 0, sel |-> Rep(0, LANES), w |-> Rep(0, LANES)]
Reqs == [cyc: {1}, stb: {1}, we: {0, 1}, adr: 0..DEPTH - 1, sel: [1..LANES -> {0, 1}], w: [1..LANES -> {0, 1}]]
NoReqs == {Idle, [Idle EXCEPT !.cyc = 1, !.we = 1], [Idle EXCEPT !.stb = 1, !.we = 1]}
Init == s = WbInit(C) /\ q = Idle /\ truth = WbInit(C).mem /\ got = <<>> /\ age = 0
\* q: what is on the bus in the current cycle, chosen after the acknowledge of the last transfer
Next ==
  /\ s' = WbNext(C, s, q)
  /\ LET fin == T(s.ack) /\ T(q.cyc) /\ T(q.stb) IN
     /\ truth' = IF fin /\ T(q.we) /\ RO = 0 THEN [truth EXCEPT ![q.adr + 1] = WbMerge(@, q.sel, q.w)] ELSE truth
     /\ got' = IF fin /\ ~T(q.we) THEN <<s.mem[s.adr + 1], truth[q.adr + 1]>> ELSE <<>>
     /\ IF T(q.cyc) /\ T(q.stb) /\ ~fin THEN q' = q /\ age' = age + 1 ELSE q' \in Reqs \cup NoReqs /\ age' = 0
Spec == Init /\ [][Next]_vars
ReadsTruth == got # <<>> => got[1] = got[2]
Prompt == age <= 1
NoStray == T(s.ack) => T(q.cyc) /\ T(q.stb)
RomFixed == RO = 1 => s.mem = WbInit(C).mem
=============================================================================
