------------------------------ MODULE Dividers ------------------------------
(* K...: utils.clockdivider.SimpleClockDivider  (c.half = divisor/2, c.pol)  *)
(* D...: utils.dividingcounter.DividingCounter  (c.div, c.wrap = 2^width)    *)
EXTENDS Kit
KInit(c) == [cnt |-> 0, clk |-> c.pol]
KNext(c, s, en) == IF s.cnt = c.half - 1
                   THEN [cnt |-> 0, clk |-> IF T(en) THEN 1 - s.clk ELSE c.pol]
                   ELSE [s EXCEPT !.cnt = @ + 1]
KStep(c, s, e) == [s |-> KNext(c, s, e.en), v |-> Judge(<< <<"clock level", e.clk = s.clk>> >>)]

\* dv = 2: not specified (after a reset, before the first counted cycle)
DInit(c) == [cnt |-> 0, sub |-> 0, div |-> 0, dv |-> 0]
DNext(c, s, rst, act) ==
  IF T(rst) THEN [cnt |-> 0, sub |-> 0, div |-> 0, dv |-> 2]
  ELSE IF ~T(act) THEN s
  ELSE LET wrap == s.cnt = c.wrap - 1
           hit  == s.sub = c.div - 1
       IN [cnt |-> IF wrap THEN 0 ELSE s.cnt + 1,
           sub |-> IF wrap \/ hit THEN 0 ELSE s.sub + 1,
           div |-> IF hit THEN (s.div + 1) % c.wrap ELSE s.div,
           dv  |-> B(hit)]
DStep(c, s, e) ==
  [s |-> DNext(c, s, e.rst, e.act),
   v |-> Judge(<< <<"counter", e.cnt = s.cnt>>, <<"divided counter", e.div = s.div>>,
                  <<"dividable flag", s.dv = 2 \/ e.dv = s.dv>> >>)]
=============================================================================
