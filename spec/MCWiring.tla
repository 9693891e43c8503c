------------------------------ MODULE MCWiring ------------------------------
(* The bar is monotone, empty/full exactly at the ends; a synchronizer never *)
(* shows a value that was not on the input at some edge, and settles on a    *)
(* constant input after exactly `stages` edges; digits are distinguishable.  *)
EXTENDS Wiring
CONSTANTS N
VARIABLES w, mn, mx, x, st, hist
vars == <<w, mn, mx, x, st, hist>>
C == [stages |-> N, nin |-> 1]
Init == /\ w \in 3..8 /\ mn \in 0..3 /\ mx \in (mn + w)..(mn + w + 12) /\ x \in {0} /\ st = YInit(C) /\ hist = <<>>
Next == \/ /\ x < mx + 3 /\ x' = x + 1 /\ UNCHANGED <<w, mn, mx, st, hist>>
        \/ /\ w = 3 /\ mn = 0 /\ mx = 3 /\ x = 0 /\ Len(hist) < N + 3
           /\ \E b, ed \in 0..1 : /\ st' = YNext(C, st, [i |-> <<b>>, edge |-> ed])
                                  /\ hist' = IF T(ed) THEN Append(hist, b) ELSE hist
           /\ UNCHANGED <<w, mn, mx, x>>
Spec == Init /\ [][Next]_vars
cc == [w |-> w, min |-> mn, max |-> mx]
BarMonotone == RBits(cc, x) <= RBits(cc, x + 1) /\ RBits(cc, x + 1) <= RBits(cc, x) + 2
BarEnds == (RBits(cc, x) = 0 <=> x <= mn) /\ (RBits(cc, x) = w <=> x >= mx)
SyncExact == st.ch[N] = <<IF Len(hist) >= N THEN hist[Len(hist) - N + 1] ELSE 0>>
FontDistinct == \A i, j \in 1..16 : i # j => Font[i] # Font[j]
=============================================================================
