------------------------------- MODULE MCFft --------------------------------
(* Laws of the transform that is specified, and the radix 2 constant geometry *)
(* algorithm (bit reversed load, butterflies on neighbours, results to k and  *)
(* k + n/2) against it, for every input over a small alphabet.                *)
EXTENDS Fft, TLC
CONSTANTS NP, LG, Vals, W, CT, ST, TS, Full
Cfg == [n |-> NP, w |-> W, ct |-> CT, st |-> ST, ts |-> TS]
VARIABLES x
Zero == [j \in 1..NP |-> [r |-> 0, i |-> 0]]
Init == IF Full THEN x \in [1..NP -> [r : Vals, i : Vals]]
        ELSE x \in {[Zero EXCEPT ![j] = v, ![l] = u] : j, l \in 1..NP, v, u \in [r : Vals, i : Vals]}
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Rev(k) == FromMSB(BitsLSB(k, LG))
Load == [j \in 1..NP |-> x[Rev(j - 1) + 1]]
Tw(a, b) == [r |-> (b.r * a.c) \div Pow2(TS) + (b.i * a.s) \div Pow2(TS),
             i |-> (b.i * a.c) \div Pow2(TS) - (b.r * a.s) \div Pow2(TS)]
(* twiddle of stage g (0 based) for position k < n/2: the top g bits of k.    *)
Wk(g, k) == LET m == (k \div Pow2(LG - 1 - g)) * Pow2(LG - 1 - g)
            IN [c |-> CT[(m % NP) + 1], s |-> ST[(m % NP) + 1]]
Stage(g, q) == [j \in 1..NP |->
     LET k == (j - 1) % (NP \div 2)
         a == q[2 * k + 1]
         b == Tw(Wk(g, k), q[2 * k + 2])
     IN IF j <= NP \div 2 THEN [r |-> a.r + b.r, i |-> a.i + b.i] ELSE [r |-> a.r - b.r, i |-> a.i - b.i]]
RECURSIVE Run(_, _)
Run(g, q) == IF g = LG THEN q ELSE Run(g + 1, Stage(g, q))
Tol == 2 * NP
Radix2 == LET y == Run(0, Load) IN
    \A k \in 0..(NP - 1) :
      /\ Abs(y[k + 1].r * Pow2(TS) - BinR(Cfg, x, k)) <= Tol * Pow2(TS)
      /\ Abs(y[k + 1].i * Pow2(TS) - BinI(Cfg, x, k)) <= Tol * Pow2(TS)
Dc == /\ BinR(Cfg, x, 0) = Sum([j \in 1..NP |-> x[j].r]) * CT[1]
      /\ BinI(Cfg, x, 0) = Sum([j \in 1..NP |-> x[j].i]) * CT[1]
(* Parseval, exact where the cosines are.                                     *)
Parseval == Full => Sum([k \in 1..NP |-> BinR(Cfg, x, k-1) * BinR(Cfg, x, k-1) + BinI(Cfg, x, k-1) * BinI(Cfg, x, k-1)])
                    = NP * CT[1] * CT[1] * Sum([j \in 1..NP |-> x[j].r * x[j].r + x[j].i * x[j].i])
C4 == <<1, 0, -1, 0>>
S4 == <<0, 1, 0, -1>>
C8 == <<256, 181, 0, -181, -256, -181, 0, 181>>
S8 == <<0, 181, 256, 181, 0, -181, -256, -181>>
V4 == {-8, 0, 7}
V8 == {-128, 0, 127}
=============================================================================
