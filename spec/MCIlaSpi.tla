------------------------------ MODULE MCIlaSpi -------------------------------
(* The SPI readout of the analyzer: bus master, SPI device (specification),   *)
(* sample counter and memory pipeline as they are built.  What the master     *)
(* samples are the samples from the first on, MSB first, in every selection.  *)
EXTENDS Spi, TLC
CONSTANTS Pol, Pha, Depth, W
Csh == 0
Cdc == 2
Cfg == [cdc |-> Cdc, pol |-> Pol, pha |-> Pha, msb |-> 1, csh |-> Csh, w |-> W, div |-> 0]
VARIABLES d, sel, ck, age, seen, psel, cur, num, rd, mem
vars == <<d, sel, ck, age, seen, psel, cur, num, rd, mem>>
Hold == Cdc + 3
(* the memory is quiet while it is read; it changes only between selections   *)
Init == /\ d = DInit(Cfg) /\ sel = 0 /\ ck = 0 /\ age = 0 /\ seen = <<>> /\ psel = 0 /\ cur = 0 /\ num = 0 /\ rd = 0
        /\ mem \in [0..Depth - 1 -> 0..Pow2(W) - 1]
Ev == [cs |-> sel, sck |-> (ck + Pol) % 2, sdi |-> 0, wo |-> rd]
Smp == IF Pha = 1 THEN ck = 1 /\ ck' = 0 ELSE ck = 0 /\ ck' = 1
Master ==
  \/ /\ age < Hold + 1 /\ age' = age + 1 /\ UNCHANGED <<sel, ck, seen>>
  \/ /\ age >= Hold + (IF sel = 0 THEN 1 ELSE 0) /\ sel = 0 /\ sel' = 1 /\ ck' = 0 /\ seen' = <<>> /\ age' = 0
  \/ /\ age >= Hold /\ sel = 1 /\ ck' = 1 - ck /\ sel' = 1 /\ age' = 0
     /\ (ck = 0 => Len(seen) < Depth * W)
     /\ seen' = IF Smp THEN Append(seen, d.sdo) ELSE seen
  \/ /\ age >= Hold /\ sel = 1 /\ ck = 0 /\ sel' = 0 /\ ck' = 0 /\ age' = 0 /\ UNCHANGED seen
Next == /\ d' = DNext(Cfg, d, Ev) /\ Master /\ UNCHANGED mem
        /\ psel' = sel
        /\ cur' = IF sel = 0 THEN 0 ELSE IF psel = 0 THEN 1 ELSE IF d.wa = 1 THEN (cur + 1) % Depth ELSE cur
        /\ num' = cur
        /\ rd' = mem[num]
Spec == Init /\ [][Next]_vars
Expected == [i \in 1..Depth * W |-> BitsMSB(mem[(i - 1) \div W], W)[((i - 1) % W) + 1]]
SamplesInOrder == \A i \in 1..Len(seen) : seen[i] = Expected[i]
=============================================================================
