-------------------------------- MODULE Cic ---------------------------------
(* Cascaded integrator comb decimator, stated by what it computes: the N fold *)
(* moving sum over c.r samples, every c.r samples, scaled into c.bw bits.     *)
EXTENDS Dsp
Conv(p, q) == [i \in 1..(Len(p) + Len(q) - 1) |->
                 Sum([j \in 1..Len(p) |-> IF i - j >= 0 /\ i - j < Len(q) THEN p[j] * q[i - j + 1] ELSE 0])]
RECURSIVE Box(_, _)
Box(r, n) == IF n = 0 THEN <<1>> ELSE Conv(Rep(1, r), Box(r, n - 1))
RECURSIVE Bits(_)
Bits(v) == IF v = 0 THEN 0 ELSE 1 + Bits(v \div 2)
RECURSIVE PowOf(_, _)
PowOf(b, n) == IF n = 0 THEN 1 ELSE b * PowOf(b, n - 1)
(* The sum lies in -r^n .. r^n.  It is scaled by the smallest power of two    *)
(* that makes this range fit.                                                 *)
Scale(c) == Max2(0, Bits(PowOf(c.r, c.n)) + 1 - c.bw)
(* Filter delay, in input samples, of the pipelined structure.                *)
Lag(c) == c.r * c.n + c.n - 1
CicInit(c) == [k |-> Box(c.r, c.n), u |-> Rep(0, Lag(c) + c.n * (c.r - 1) + 1), cnt |-> 0,
               due |-> <<>>, age |-> 0, out |-> 0]
Value(c, k, u) == Sum([j \in 1..Len(k) |-> k[j] * u[Lag(c) + j]]) \div Pow2(Scale(c))
CicStep(c, s, e) ==
    LET got  == T(e.so)
        due1 == IF got THEN Drop(s.due, 1) ELSE s.due
        u2   == IF T(e.en) THEN Push(s.u, e.in) ELSE s.u
        full == T(e.en) /\ s.cnt = c.r - 1
    IN [s |-> [k |-> s.k, u |-> u2,
               cnt |-> IF ~T(e.en) THEN s.cnt ELSE IF full THEN 0 ELSE s.cnt + 1,
               due |-> IF full THEN Append(due1, Value(c, s.k, u2)) ELSE due1,
               age |-> IF due1 = <<>> THEN 0 ELSE s.age + 1,
               out |-> IF got /\ s.due # <<>> THEN s.due[1] ELSE s.out],
        v |-> Judge(<<
          <<"output strobe only after r further samples", got => s.due # <<>>>>,
          <<"output strobe soon after the r-th sample", s.age < 4>>,
          <<"output is the scaled moving sum", e.out = IF got /\ s.due # <<>> THEN s.due[1] ELSE s.out>> >>)]
=============================================================================
