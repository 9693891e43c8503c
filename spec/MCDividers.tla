----------------------------- MODULE MCDividers -----------------------------
EXTENDS Dividers, TLC
CONSTANTS HALF, DIV, WRAP
VARIABLES k, d, phase, since
vars == <<k, d, phase, since>>
KC == [half |-> HALF, pol |-> 0]
DC == [div |-> DIV, wrap |-> WRAP]
Init == k = KInit(KC) /\ d = DInit(DC) /\ phase = 0 /\ since = 0
Next == \E en, rst, act \in {0,1} :
  /\ k' = KNext(KC, k, en) /\ d' = DNext(DC, d, rst, act)
  /\ phase' = (phase + 1) % HALF
  /\ since' = IF k'.clk # k.clk THEN 1 ELSE Min2(since + 1, HALF)
Spec == Init /\ [][Next]_vars
\* no runt pulses: the clock stays at a level for at least half a period once it changed
NoRunts == [][k'.clk # k.clk => since = HALF \/ (since < HALF /\ k.clk = KC.pol)]_vars
\* between wraps the divided counter says how often DIV fits into the counter
Divides == d.sub = d.cnt % DIV /\ (d.dv = 1 => d.cnt % DIV = 0 \/ d.cnt = 0)
=============================================================================
