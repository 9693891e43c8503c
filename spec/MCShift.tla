------------------------------- MODULE MCShift ------------------------------
(* A word written into the output register and clocked into an input         *)
(* register of the same depth arrives bit-reversed; NRZI toggles on ones;    *)
(* the degree-4 maximal LFSR visits all 15 non-zero states.                  *)
EXTENDS Shift, TLC, FiniteSets
CONSTANTS DEPTH
VARIABLES o, i, n, word, f, seen
vars == <<o, i, n, word, f, seen>>
C == [depth |-> DEPTH, rot |-> 0]
FC == [taps |-> <<4, 3>>, reset |-> <<1, 0, 0, 0>>]
Init == /\ word \in [1..DEPTH -> {0,1}] /\ o = word /\ i = IInit(C) /\ n = 0
        /\ f = FC.reset /\ seen = {}
Next == n < 15 /\ n' = n + 1 /\ UNCHANGED word
        /\ o' = ONext(C, o, [we |-> 0, en |-> 1, d |-> <<>>])
        /\ i' = INext(C, i, [clr |-> 0, en |-> 1, b |-> o[1]])
        /\ f' = FNextR(FC, f) /\ seen' = seen \cup {f}
Spec == Init /\ [][Next]_vars
Arrives == n = DEPTH => i = [k \in 1..DEPTH |-> word[DEPTH + 1 - k]]
Maximal == n = 15 => Cardinality(seen) = 15 /\ f = FC.reset
=============================================================================
