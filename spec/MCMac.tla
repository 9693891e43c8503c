------------------------------- MODULE MCMac --------------------------------
(* The split sum of products is the plain one; the modes have the documented  *)
(* symmetries; the rule only depends on the words, not on their timing.       *)
EXTENDS Mac, TLC
CONSTANTS BW, Vals, T1, T2, Mode, Depth
Cfg == [t1 |-> T1, t2 |-> T2, bw |-> BW, mode |-> Mode, lim |-> 99]
VARIABLES s, n, hl, hr, outs, v, hold
vars == <<s, n, hl, hr, outs, v, hold>>
Init == s = MacInit(Cfg) /\ n = 0 /\ hl = <<>> /\ hr = <<>> /\ outs = <<>> /\ v = "ok" /\ hold = FALSE
Word(k, p) == [iv |-> 1, ir |-> 1, if |-> B(k = 1), il |-> B(k = 2), ip |-> p]
Quiet == [iv |-> 0, ir |-> 0, if |-> 0, il |-> 0, ip |-> 0]
Ev(i, o, r) == [iv |-> i.iv, ir |-> i.ir, if |-> i.if, il |-> i.il, ip |-> i.ip,
                ov |-> B(o), or |-> B(r), op |-> IF o THEN s.due[1].p ELSE 0,
                of |-> IF o THEN s.due[1].f ELSE 0, ol |-> IF o THEN s.due[1].l ELSE 0]
Do(i, o, r) == LET q == MacStep(Cfg, s, Ev(i, o, r))
               IN /\ s' = [q.s EXCEPT !.stuck = 0] /\ v' = q.v
                  /\ outs' = IF o /\ r THEN Append(outs, s.due[1].p) ELSE outs
                  /\ hold' = (o /\ ~r)
Next == \/ /\ s.due = <<>> /\ n < Depth /\ n' = n + 1
           /\ \E k \in {1, 2}, p \in Vals :
                /\ (k = 1 => s.a = None)
                /\ (k = 2 => s.b = None)
                /\ Do(Word(k, p), FALSE, TRUE)
                /\ hl' = IF k = 1 THEN Append(hl, p) ELSE hl
                /\ hr' = IF k = 2 THEN Append(hr, p) ELSE hr
        \/ /\ UNCHANGED <<n, hl, hr>>
           /\ \E o, r \in BOOLEAN : (o => s.due # <<>>) /\ (hold => o) /\ Do(Quiet, o, r)
Spec == Init /\ [][Next]_vars
Ok == v = "ok"
At(h, i) == IF i < 1 THEN 0 ELSE h[i]
Plain(h, t, m) == Sum([i \in 1..Len(t) |-> At(h, m + 1 - i) * t[i]])
Conv == \A m \in 1..(Len(outs) \div 2) :
          LET L == CASE Mode = 1 -> Plain(hl, T1, m) + Plain(hr, T2, m) [] OTHER -> Plain(hl, T1, m)
              R == CASE Mode = 1 -> Plain(hr, T1, m) + Plain(hl, T2, m) [] Mode = 2 -> Plain(hr, T2, m) [] OTHER -> Plain(hr, T1, m)
          IN outs[2*m - 1] = (L \div Pow2(BW)) % Pow2(BW) /\ outs[2*m] = (R \div Pow2(BW)) % Pow2(BW)
VS == {-16, -1, 15}
TA == <<15, -16, 7>>
TB == <<-3, 9, -1>>
=============================================================================
