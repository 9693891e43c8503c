-------------------------------- MODULE MCHb --------------------------------
(* The paired form of the half band filter against the plain sum of products. *)
EXTENDS Filt, TLC
CONSTANTS Alpha, Depth
B7 == <<-3, 0, 12, 0, 12, 0, -3>>
Cfg == [b |-> B7, bw |-> 6, f |-> 6, lat |-> 0]
VARIABLES s, in, d
vars == <<s, in, d>>
Init == s = HbInit(Cfg) /\ in = <<>> /\ d = 0
Next == d < Depth /\ d' = d + 1 /\ \E en \in 0..1, v \in Alpha :
          /\ LET r == HbStep(Cfg, s, [en |-> en, in |-> v, out |-> s.new, so |-> B(s.so)])
             IN r.v = "ok" /\ s' = r.s
          /\ in' = IF en = 1 THEN Append(in, v) ELSE in
Spec == Init /\ [][Next]_vars
AL == {-32, 0, 31}
At(i) == IF i < 1 THEN 0 ELSE in[i]
H(k) == IF k = 4 THEN 32 ELSE B7[k]
Plain == LET ex == Sum([k \in 1..7 |-> At(Len(in) + 1 - k) * H(k)])
         IN \E j \in 0..3 : s.new = Wrap((ex \div 64) - j, 6)
Strobes == s.so => Len(in) > 0 /\ Len(in) % 2 = 0
Once == [][(s'.so /\ in' # in) <=> (in' # in /\ Len(in') % 2 = 0)]_vars
=============================================================================
