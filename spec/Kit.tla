-------------------------------- MODULE Kit ---------------------------------
(* Small helpers shared by the component specifications.                     *)
EXTENDS Integers, Sequences
(* Verdict of a list of named clauses: the first one that does not hold.     *)
RECURSIVE Judge(_)
Judge(cl) == IF cl = <<>> THEN "ok"
             ELSE IF Head(cl)[2] THEN Judge(Tail(cl)) ELSE Head(cl)[1]
B(x)      == IF x THEN 1 ELSE 0
T(x)      == x # 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow2(_)
Pow2(n)   == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Drop(q, n) == IF n >= Len(q) THEN <<>> ELSE SubSeq(q, n + 1, Len(q))
Take(q, n) == IF n >= Len(q) THEN q ELSE SubSeq(q, 1, n)
Bit(v, i)  == (v \div Pow2(i)) % 2
(* MSB-first bits of a w-bit value, and back.                                *)
BitsMSB(v, w) == [i \in 1..w |-> Bit(v, w - i)]
BitsLSB(v, w) == [i \in 1..w |-> Bit(v, i - 1)]
RECURSIVE FromMSB(_)
FromMSB(b) == IF b = <<>> THEN 0 ELSE 2 * FromMSB(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
RECURSIVE FromLSB(_)
FromLSB(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * FromLSB(Tail(b))
Rep(x, n) == [i \in 1..n |-> x]
SignedOf(v, w) == IF v >= Pow2(w - 1) THEN v - Pow2(w) ELSE v
=============================================================================
