------------------------------- MODULE MCFilt -------------------------------
(* Filters of a few taps, all input sequences over an alphabet, all gatings.  *)
EXTENDS Filt, TLC
CONSTANTS Bs, As, NS, BW, F, Alpha, Depth
Cfg == [b |-> Bs, a |-> As, n |-> NS, bw |-> BW, f |-> F]
VARIABLES s, in, outs, d, last
vars == <<s, in, outs, d, last>>
Init == s = FiltInit(Cfg) /\ in = <<>> /\ outs = <<>> /\ d = 0 /\ last = ChainOut(Cfg, FiltInit(Cfg).g)
Do(en, v) == LET o == ChainOut(Cfg, s.g)
                 r == FiltStep(Cfg, s, [en |-> en, in |-> v, out |-> o])
             IN /\ r.v = "ok"
                /\ s' = r.s
                /\ in' = IF en = 1 THEN Append(in, v) ELSE in
                /\ outs' = IF en = 1 THEN Append(outs, o) ELSE outs
                /\ last' = ChainOut(Cfg, r.s.g)
                /\ d' = d + 1
Next == d < Depth /\ \E en \in 0..1, v \in Alpha : Do(en, v)
Spec == Init /\ [][Next]_vars
At(q, i) == IF i < 1 \/ i > Len(q) THEN 0 ELSE q[i]
(* The defining difference equation over the whole history (one stage).       *)
Diff == (NS = 1) => \A k \in 1..Len(in) :
          LET y == IF k = Len(in) THEN last ELSE outs[k + 1]
              yy(i) == IF i < 1 THEN 0 ELSE IF i = Len(in) THEN last ELSE outs[i + 1]
          IN y = Wrap(Dot([i \in 1..Len(Bs) |-> At(in, k + 1 - i)], Bs, F)
                      - Dot([i \in 1..Len(As) |-> yy(k - i)], As, F), BW)
(* Truncation loses less than one unit per tap.                               *)
Exact == (NS = 1 /\ As = <<>>) =>
          LET ex == Sum([i \in 1..Len(Bs) |-> At(in, Len(in) + 1 - i) * Bs[i]])
          IN \E k \in 0..Len(Bs) : Wrap(ex \div Pow2(F) - k, BW) = last
(* A chain of stages delays by one accepted sample per further stage.         *)
Delay == (NS > 1 /\ As = <<>> /\ Bs = <<Pow2(F)>>) => last = At(in, Len(in) - (NS - 1))
Hold == [][in' = in => last' = last]_vars
B3 == <<3, -5, 7>>
B1 == <<16>>
B2 == <<9, 6>>
A0 == <<>>
A2 == <<-11, 5>>
AL == {-8, -3, 0, 1, 7}
=============================================================================
