------------------------------- MODULE Bits ---------------------------------
(* The immutable bit sequence: a sequence of 0/1, least significant first.    *)
(* State: the objects created so far.  Each event applies one operation to    *)
(* existing objects (x, y: indices), reports the result r (bits, LSB first,   *)
(* or a number/string as named) and the contents of its operands afterwards.  *)
EXTENDS Kit
NoneV == 99999
RECURSIVE BitLen(_)
BitLen(v) == IF v = 0 THEN 0 ELSE 1 + BitLen(v \div 2)
RECURSIVE OfInt(_, _)
OfInt(v, n) == IF n = 0 THEN <<>> ELSE <<v % 2>> \o OfInt((v - (v % 2)) \div 2, n - 1)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE BitsLSB(Head(q), 8) \o Flat(Tail(q))
Fit(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE 0]
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
Clip(i, n) == IF i < 0 THEN Max2(0, n + i) ELSE Min2(i, n)
Slice(q, i, j) == LET a == IF i = NoneV THEN 0 ELSE Clip(i, Len(q))
                      b == IF j = NoneV THEN Len(q) ELSE Clip(j, Len(q))
                  IN IF b < a THEN <<>> ELSE SubSeq(q, a + 1, b)
RECURSIVE Times(_, _)
Times(q, n) == IF n = 0 THEN <<>> ELSE q \o Times(q, n - 1)
RECURSIVE ToBytes(_)
ToBytes(q) == IF q = <<>> THEN <<>> ELSE <<FromLSB(Take(q, 8))>> \o ToBytes(Drop(q, 8))
Zip(f, a, b) == [i \in 1..Max2(Len(a), Len(b)) |-> f[At(a, i)][At(b, i)]]
AndT == [u \in 0..1 |-> [v \in 0..1 |-> u * v]]
OrT  == [u \in 0..1 |-> [v \in 0..1 |-> Max2(u, v)]]
XorT == [u \in 0..1 |-> [v \in 0..1 |-> (u + v) % 2]]

(* what the operation has to return *)
Result(o, e) ==
  LET X == o[e.x]  Y == o[e.y] IN
  CASE e.op = "int"     -> OfInt(e.i, IF e.n = NoneV THEN BitLen(e.i) ELSE e.n)
    [] e.op = "str"     -> Rev(e.q)
    [] e.op = "iter"    -> e.q
    [] e.op = "bytes"   -> Fit(Flat(IF e.big THEN Rev(e.q) ELSE e.q), e.n)
    [] e.op = "resize"  -> Fit(X, e.n)
    [] e.op = "same"    -> X
    [] e.op = "slice"   -> Slice(X, e.i, e.n)
    [] e.op = "add"     -> X \o Y
    [] e.op = "mul"     -> Times(X, e.n)
    [] e.op = "and"     -> Zip(AndT, X, Y)
    [] e.op = "or"      -> Zip(OrT, X, Y)
    [] e.op = "xor"     -> Zip(XorT, X, Y)
    [] e.op = "rev"     -> Rev(X)
    (* observers *)
    [] e.op = "get"     -> <<X[IF e.i < 0 THEN Len(X) + e.i + 1 ELSE e.i + 1]>>
    [] e.op = "tostr"   -> Rev(X)
    [] e.op = "toiter"  -> X
    [] e.op = "toint"   -> X
    [] e.op = "tobytes" -> IF e.big THEN Rev(ToBytes(X)) ELSE ToBytes(X)
    [] e.op = "len"     -> <<Len(X), B(Len(X) > 0)>>
    [] e.op = "eq"      -> <<B(X = Y), B(X # Y)>>
Creates == {"int", "str", "iter", "bytes", "resize", "same", "slice", "add", "mul", "and", "or", "xor", "rev"}
BInit(c) == << <<>> >>
BStep(c, s, e) ==
  LET r == Result(s, e)
  IN [s |-> IF e.op \in Creates THEN Append(s, r) ELSE s,
      v |-> Judge(<< <<"bits: " \o e.op, e.r = r>>,
                     <<"operands are never modified", e.ax = s[e.x] /\ e.ay = s[e.y]>> >>)]
=============================================================================
