-------------------------------- MODULE Mac ---------------------------------
(* Stereo convolution: one stereo sample in, one out, exact sums of products. *)
(* c.t1, c.t2: impulse responses; c.mode: 1 crossfeed, 2 stereo, 3 mono.      *)
EXTENDS Dsp
(* The same for numbers of 25 to 31 bits, modulo 2^bw, from octets: the       *)
(* column sums r of the products, carries taken to the left.                  *)
Octet(v, k) == IF k = 3 THEN v \div 16777216 ELSE (v \div Pow2(8 * k)) % 256
Column(a, b, k) == Sum([i \in 1..Len(a) |-> Sum([j \in 1..4 |->
                       IF k - j + 1 \in 0..3 THEN Octet(a[i], j - 1) * Octet(b[i], k - j + 1) ELSE 0])])
RECURSIVE Carry(_, _, _, _)
Carry(a, b, k, c) == IF k > 7 THEN <<>> ELSE LET v == Column(a, b, k) + c
                                             IN <<v % 256>> \o Carry(a, b, k + 1, v \div 256)
SumShiftWide(a, b, bw) ==
    LET r == Carry(a, b, 0, 0)
        m == bw - 24
    IN (r[4] \div Pow2(m)) + r[5] * Pow2(8 - m) + r[6] * Pow2(16 - m) + (r[7] % Pow2(Min2(8, 2 * m))) * Pow2(24 - m)
       + (IF m > 4 THEN (r[8] % Pow2(2 * m - 8)) * Pow2(32 - m) ELSE 0)
(* floor(sum of a[i]*b[i] / 2^bw) for numbers of up to 24 bits, from the      *)
(* products of their halves.                                                  *)
SumShift(a, b, bw) ==
    IF bw > 24 THEN SumShiftWide(a, b, bw) ELSE
    LET k  == bw \div 2
        P  == Pow2(k)
        n  == Len(a)
        hh == Sum([i \in 1..n |-> (a[i] \div P) * (b[i] \div P)])
        mm == Sum([i \in 1..n |-> (a[i] \div P) * (b[i] % P) + (a[i] % P) * (b[i] \div P)])
        ll == Sum([i \in 1..n |-> (a[i] % P) * (b[i] % P)])
    IN (hh + ((mm + (ll \div P)) \div P)) \div Pow2(bw - 2 * k)
Cutoff(v, bw) == IF bw > 24 THEN v ELSE v % Pow2(bw)
Out(c, x, y) ==
    LET left  == CASE c.mode = 1 -> SumShift(x \o y, c.t1 \o c.t2, c.bw)
                   [] c.mode = 2 -> SumShift(x, c.t1, c.bw)
                   [] c.mode = 3 -> SumShift(x, c.t1, c.bw)
        right == CASE c.mode = 1 -> SumShift(y \o x, c.t1 \o c.t2, c.bw)
                   [] c.mode = 2 -> SumShift(y, c.t2, c.bw)
                   [] c.mode = 3 -> SumShift(y, c.t1, c.bw)
    IN << [p |-> Cutoff(left, c.bw), f |-> 1, l |-> 0], [p |-> Cutoff(right, c.bw), f |-> 0, l |-> 1] >>
None == 2147483647
MacInit(c) == [x |-> Rep(0, Len(c.t1)), y |-> Rep(0, Len(c.t1)), a |-> None, b |-> None,
               due |-> <<>>, held |-> <<>>, stuck |-> 0]
MacStep(c, s, e) ==
    LET acc == T(e.iv) /\ T(e.ir)
        a   == IF acc /\ T(e.if) /\ s.a = None THEN e.ip ELSE s.a
        b   == IF acc /\ T(e.il) /\ ~(T(e.if) /\ s.a = None) /\ s.b = None THEN e.ip ELSE s.b
        go  == a # None /\ b # None
        x2  == Push(s.x, a)
        y2  == Push(s.y, b)
        now == [p |-> e.op, f |-> e.of, l |-> e.ol]
        out == T(e.ov) /\ T(e.or)
        ok  == s.due # <<>>
        due1 == IF out THEN Drop(s.due, 1) ELSE s.due
    IN [s |-> [x |-> IF go THEN x2 ELSE s.x, y |-> IF go THEN y2 ELSE s.y,
               a |-> IF go THEN None ELSE a, b |-> IF go THEN None ELSE b,
               due |-> IF go THEN due1 \o Out(c, x2, y2) ELSE due1,
               held |-> IF T(e.ov) /\ ~T(e.or) THEN <<now>> ELSE <<>>,
               stuck |-> IF acc \/ out \/ ~T(e.or) \/ ~(T(e.iv) \/ ok) THEN 0 ELSE s.stuck + 1],
        v |-> Judge(<<
          <<"valid as long as not ready", s.held # <<>> => T(e.ov)>>,
          <<"the word stays as long as not ready", s.held # <<>> => now = s.held[1]>>,
          <<"one output per stereo sample", T(e.ov) => ok>>,
          <<"left first, then right, each marked", (T(e.ov) /\ ok) => (e.of = s.due[1].f /\ e.ol = s.due[1].l)>>,
          <<"output is the convolution", (T(e.ov) /\ ok) => e.op = s.due[1].p>>,
          <<"a sample takes bounded time", s.stuck <= c.lim>> >>)]
=============================================================================
