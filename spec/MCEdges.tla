------------------------------ MODULE MCEdges -------------------------------
(* Every input history of bounded length: pulses and edges are in bijection, *)
(* a strobe is stretched to exactly n cycles (retriggerable).                *)
EXTENDS Edges, TLC
CONSTANTS LEN, N
VARIABLES x
Init == x = <<>>
Next == Len(x) < LEN /\ \E b \in {0,1} : x' = Append(x, b)
Spec == Init /\ [][Next]_x
RECURSIVE Run(_, _, _, _)
Run(c, s, in, acc) == IF in = <<>> THEN acc ELSE Run(c, EdNext(c, s, Head(in)), Tail(in), Append(acc, EdOut(c, s, Head(in))))
Y(kind) == LET c == [kind |-> kind, n |-> N] IN Run(c, EdInit(c), x, <<>>)
X(k) == IF k < 1 THEN 0 ELSE x[k]
Edges01 == \A k \in 1..Len(x) : /\ (Y("rise")[k] = 1) = (X(k) = 1 /\ X(k - 1) = 0)
                                /\ (Y("fall")[k] = 1) = (X(k) = 0 /\ X(k - 1) = 1)
                                /\ Y("any")[k] = Y("rise")[k] + Y("fall")[k]
                                /\ Y("past")[k] = X(k - 1)
Stretch == \A k \in 1..Len(x) : /\ (Y("stretch")[k] = 1) = (\E j \in (k - N + 1)..k : X(j) = 1)
                                /\ (Y("stretch_delay")[k] = 1) = (\E j \in (k - N)..(k - 1) : X(j) = 1)
=============================================================================
