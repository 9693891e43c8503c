------------------------------- MODULE MCGen --------------------------------
(* ConstantStreamGenerator design: every start position, length limit and    *)
(* consumer behaviour, with the record of what one transmission delivered.   *)
EXTENDS Gen, TLC
CONSTANTS NB, BPW, VW, MAXML
VARIABLES s, inp, req, got, ml, fin
vars == <<s, inp, req, got, ml, fin>>
NW == (NB + BPW - 1) \div BPW
C == [words |-> [k \in 1..NW |-> 100 + k], nbytes |-> NB, bpw |-> BPW, vw |-> VW,
      lastb |-> IF NB % BPW = 0 THEN BPW ELSE NB % BPW, hasmax |-> 1]
Init == /\ s = GInit(C) /\ inp = [start |-> 0, sp |-> 0, ml |-> 0, rdy |-> 0]
        /\ req = 0 /\ got = <<>> /\ ml = 0 /\ fin = FALSE
Next == \E st \in {0,1}, sp \in 0..(NW + 1), m \in 0..MAXML, rdy \in {0,1} :
   LET i == [start |-> st, sp |-> sp, ml |-> IF s.ph = "idle" THEN m ELSE ml, rdy |-> rdy] IN
   /\ inp' = i
   /\ s' = GNext(C, s, i)
   /\ ml' = i.ml
   /\ req' = IF s.ph = "idle" THEN sp ELSE req
   /\ got' = IF s.ph = "idle" THEN <<>>
             ELSE IF s.ph = "run" /\ rdy = 1
                  THEN Append(got, <<C.words[s.pos + 1], GBytes(C, s, i), B(s.first), B(GLast(C, s, i))>>)
                  ELSE got
   /\ fin' = (s'.ph = "done")
Spec == Init /\ [][Next]_vars
View == <<s, req, got, ml, fin>>
RECURSIVE SumB(_)
SumB(g) == IF g = <<>> THEN 0 ELSE Head(g)[2] + SumB(Tail(g))
\* a finished transmission delivered exactly the requested slice, framed by one first and one last
Slice == fin =>
   LET start == Min2(req, NW - 1)
       avail == NB - start * BPW
   IN /\ SumB(got) = Min2(avail, ml)
      /\ \A k \in 1..Len(got) : /\ got[k][1] = C.words[start + k]
                                /\ got[k][3] = B(k = 1) /\ got[k][4] = B(k = Len(got))
                                /\ k < Len(got) => got[k][2] = BPW
InRange == s.pos < NW
=============================================================================
