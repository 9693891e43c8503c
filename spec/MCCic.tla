------------------------------- MODULE MCCic --------------------------------
(* The integrator and comb registers (modulo 2^width) deliver the moving sum. *)
EXTENDS Cic, TLC
CONSTANTS R, N, BW, Depth
Cfg == [r |-> R, n |-> N, bw |-> BW]
W == Scale(Cfg) + BW
VARIABLES s, x, y, dy, ce, so, out, d
vars == <<s, x, y, dy, ce, so, out, d>>
Init == /\ s = CicInit(Cfg) /\ x = Rep(0, N) /\ y = Rep(0, N) /\ dy = Rep(0, N)
        /\ ce = 0 /\ so = 0 /\ out = 0 /\ d = 0
Do(en, u) ==
    LET r == CicStep(Cfg, s, [en |-> en, in |-> u, so |-> so, out |-> out])
    IN /\ Assert(r.v = "ok", r.v)
       /\ s' = r.s
       /\ x' = IF en = 0 THEN x ELSE [i \in 1..N |-> Wrap(x[i] + (IF i = 1 THEN u ELSE x[i - 1]), W)]
       /\ y' = IF ce = 0 THEN y ELSE [i \in 1..N |-> Wrap((IF i = 1 THEN x[N] ELSE y[i - 1]) - dy[i], W)]
       /\ dy' = IF ce = 0 THEN dy ELSE [i \in 1..N |-> IF i = 1 THEN x[N] ELSE y[i - 1]]
       /\ out' = IF ce = 0 THEN out ELSE y[N] \div Pow2(Scale(Cfg))
       /\ so' = ce
       /\ ce' = B(en = 1 /\ s.cnt = R - 1)
       /\ d' = d + 1
Next == d < Depth /\ \E en \in 0..1, u \in {-1, 1} : (en = 0 => u = 1) /\ Do(en, u)
Spec == Init /\ [][Next]_vars
Range == s.out <= Pow2(BW - 1) - 1 /\ s.out >= -Pow2(BW - 1)
=============================================================================
