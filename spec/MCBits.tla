------------------------------- MODULE MCBits -------------------------------
(* The laws a user relies on, for all pairs of sequences up to a length.      *)
EXTENDS Bits, TLC, FiniteSets
CONSTANTS N
Seqs == UNION {[1..k -> 0..1] : k \in 0..N}
VARIABLES a, b, n
vars == <<a, b, n>>
Init == a \in Seqs /\ b \in Seqs /\ n \in (0-N-1)..(N+1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Op(o, x, y, i) == Result(<<a, b>>, [op |-> o, x |-> x, y |-> y, i |-> i, n |-> NoneV, q |-> <<>>, big |-> FALSE])
Split == Slice(a, NoneV, n) \o Slice(a, n, NoneV) = a
NegIndex == (n < 0 /\ 0 - n <= Len(a)) => Op("get", 1, 1, n) = Op("get", 1, 1, n + Len(a))
Sliced == (n >= 0 /\ n < Len(a)) => Slice(a, n, n + 1) = Op("get", 1, 1, n)
Bytes == Fit(Flat(ToBytes(a)), Len(a)) = a
Ints == OfInt(FromLSB(a), Len(a)) = a
Revs == Rev(Rev(a)) = a /\ Rev(a \o b) = Rev(b) \o Rev(a)
Xors == Op("xor", 1, 1, 0) = Fit(<<>>, Len(a))
        /\ Zip(XorT, Zip(AndT, a, b), Zip(OrT, a, b)) = Zip(XorT, a, b)
Comm == Zip(AndT, a, b) = Zip(AndT, b, a) /\ Zip(OrT, a, b) = Zip(OrT, b, a)
=============================================================================
