-------------------------------- MODULE Dsp ---------------------------------
(* Fixed point arithmetic within TLC's 32 bit integers.                       *)
EXTENDS Kit
(* floor((a*b + carry) / 2^f) for wide a: b is consumed five bits at a time.  *)
RECURSIVE MulShiftFrom(_, _, _, _)
MulShiftFrom(a, b, f, carry) ==
    IF f <= 5 THEN (a * b + carry) \div Pow2(f)
    ELSE MulShiftFrom(a, b \div 32, f - 5, (a * (b % 32) + carry) \div 32)
(* floor(a*b / 2^f) without forming a*b: b is cut in two.                     *)
MulShift(a, b, f) ==
    IF a > 131072 \/ a < -131072 THEN MulShiftFrom(a, b, f, 0)
    ELSE LET k  == f \div 2
             P  == Pow2(k)
             bh == b \div P
             bl == b % P
         IN (a * bh + ((a * bl) \div P)) \div Pow2(f - k)
(* Two's complement wrap to w bits, as a signed number.                       *)
Wrap(v, w) == LET m == v % Pow2(w) IN SignedOf(m, w)
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
Sum(q) == SumTo(q, Len(q))
Dot(x, t, f) == Sum([i \in 1..Len(t) |-> MulShift(x[i], t[i], f)])
Push(q, v) == IF q = <<>> THEN <<>> ELSE <<v>> \o SubSeq(q, 1, Len(q) - 1)
(* Magnitude response of a filter against a table of cosines and sines that   *)
(* are scaled by 2^8; coefficients are scaled by 2^p.                         *)
(* The projections are limited to keep the squares in range; a quarter of the *)
(* power is returned.                                                         *)
Proj(h, tab) == Max2(-4600, Min2(4600, Sum([i \in 1..Len(h) |-> h[i] * tab[i]]) \div 256))
Power(h, ct, st) == (Proj(h, ct) * Proj(h, ct) + Proj(h, st) * Proj(h, st)) \div 4
=============================================================================
