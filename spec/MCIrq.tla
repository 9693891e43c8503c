-------------------------------- MODULE MCIrq -------------------------------
(* owed[i]: an event of source i happened and its flag was not cleared by a  *)
(* write strictly later.                                                     *)
EXTENDS Soc, TLC
CONSTANTS MODES
M3 == <<"level", "rise", "fall">>
VARIABLES s, owed, last
vars == <<s, owed, last>>
N == Len(MODES)
C == [modes |-> MODES]
Bits == [1..N -> {0, 1}]
I == [stb: Bits, pw: {0, 1}, pd: Bits, ew: {0, 1}, ed: Bits]
Init == s = IrqInit(C) /\ owed = Rep(0, N) /\ last = Rep(0, N)
Level(m, now, before) == CASE m = "level" -> now = 1 [] m = "rise" -> now = 1 /\ before = 0 [] m = "fall" -> now = 0 /\ before = 1
Next == \E e \in I :
  /\ s' = IrqNext(C, s, e)
  /\ last' = e.stb
  /\ owed' = [i \in 1..N |-> IF Level(MODES[i], e.stb[i], last[i]) THEN 1
                             ELSE IF e.pw = 1 /\ e.pd[i] = 1 THEN 0 ELSE owed[i]]
Spec == Init /\ [][Next]_vars
NoEventLost == \A i \in 1..N : owed[i] = 1 => s.pend[i] = 1
NoGhost == \A i \in 1..N : s.pend[i] = 1 => owed[i] = 1
Requested == IrqLine(s) = (\E i \in 1..N : owed[i] = 1 /\ s.en[i] = 1)
\* a level source keeps asking while its strobe is high
LevelHolds == \A i \in 1..N : MODES[i] = "level" /\ last[i] = 1 => s.pend[i] = 1
=============================================================================
