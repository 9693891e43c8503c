-------------------------------- MODULE Filt --------------------------------
(* Direct form filters in fixed point and chains of them.                     *)
(* c: n stages, each with feed forward taps c.b and feedback taps c.a         *)
(* (without the leading 1), sample width c.bw, fraction width c.f.            *)
EXTENDS Dsp
StageOut(c, g) == Wrap(Dot(g.x, c.b, c.f) - Dot(g.y, c.a, c.f), c.bw)
Stage0(c) == [x |-> Rep(0, Len(c.b)), y |-> Rep(0, Len(c.a))]
RECURSIVE ChainIn(_, _, _)
(* All stages take a sample at the same time, each from the output its        *)
(* predecessor had before.                                                    *)
Shift(c, g, v) == [x |-> Push(g.x, v), y |-> Push(g.y, StageOut(c, g))]
ChainIn(c, gs, v) == [i \in 1..Len(gs) |-> Shift(c, gs[i], IF i = 1 THEN v ELSE StageOut(c, gs[i - 1]))]
ChainOut(c, gs) == StageOut(c, gs[Len(gs)])
FiltInit(c) == [g |-> [i \in 1..c.n |-> Stage0(c)]]
(* One clock cycle: the output belongs to the samples accepted so far.        *)
FiltStep(c, s, e) ==
    [s |-> IF T(e.en) THEN [g |-> ChainIn(c, s.g, e.in)] ELSE s,
     v |-> Judge(<< <<"output is the filter sum of the accepted samples", e.out = ChainOut(c, s.g)>> >>)]

(* The sequential variant needs c.lat cycles; then the result stands until    *)
(* the next one is ready.                                                     *)
SeqFiltInit(c) == [g |-> <<Stage0(c)>>, old |-> 0, new |-> 0, age |-> c.lat]
SeqFiltStep(c, s, e) ==
    LET g2 == IF T(e.en) THEN ChainIn(c, s.g, e.in) ELSE s.g
    IN [s |-> IF T(e.en) THEN [g |-> g2, old |-> s.new, new |-> ChainOut(c, g2), age |-> 0]
              ELSE [s EXCEPT !.age = Min2(c.lat, s.age + 1)],
        v |-> Judge(<<
          <<"a result or its predecessor is shown", e.out = s.new \/ e.out = s.old>>,
          <<"the result is complete in time", s.age >= c.lat => e.out = s.new>> >>)]

(* Half band decimator: pairs of samples share a tap, the centre tap is 1/2.  *)
HbSum(c, x) ==
    LET n == Len(c.b)
        h == n \div 2
    IN Wrap(Sum([i \in 1..((n + 1) \div 4) |-> MulShift(x[2*i - 1] + x[n + 2 - 2*i], c.b[2*i - 1], c.f)])
            + (x[h + 1] \div 2), c.bw)
HbInit(c) == [x |-> Rep(0, Len(c.b)), odd |-> FALSE, so |-> FALSE, old |-> 0, new |-> 0, age |-> c.lat]
HbStep(c, s, e) ==
    LET x2 == Push(s.x, e.in)
    IN [s |-> IF T(e.en)
              THEN [x |-> x2, odd |-> ~s.odd, so |-> s.odd, old |-> s.new, new |-> HbSum(c, x2), age |-> 0]
              ELSE [s EXCEPT !.so = FALSE, !.age = Min2(c.lat, s.age + 1)],
        v |-> Judge(<<
          <<"output strobe after every second sample", T(e.so) = s.so>>,
          <<"a result or its predecessor is shown", e.out = s.new \/ (s.age < c.lat /\ e.out = s.old)>> >>)]

(* Frequency response: one event per frequency.                               *)
(*  lo, hi: bounds of the power |B|^2 / |A|^2 in percent; b, a scaled 2^c.p   *)
RespInit(c) == [z |-> 0]
RespStep(c, s, e) ==
    LET pb == Power(c.b, e.cs, e.sn)
        pa == IF c.a = <<>> THEN Pow2(2 * c.p - 2) ELSE Power(<<Pow2(c.p)>> \o c.a, e.cs, e.sn)
    IN [s |-> s,
        v |-> Judge(<<
          <<"enough gain in the pass band", pb * 100 >= e.lo * pa>>,
          <<"enough attenuation in the stop band", pb * 100 <= e.hi * pa>> >>)]
=============================================================================
