----------------------------- MODULE MCDebounce -----------------------------
EXTENDS Debounce, TLC
CONSTANTS MAX
VARIABLES s, hist, last
(* hist: the last MAX+1 synchronized levels (newest last); last: kind of the *)
(* last strobe, they alternate.                                              *)
vars == <<s, hist, last>>
C == [max |-> MAX]
Init == s = DbInit(C) /\ hist = Rep(0, MAX + 1) /\ last = "up"
Next == \E b \in {0,1} :
   LET n == DbNext(C, s, [b |-> b, n |-> 1]) IN
   /\ s' = n
   /\ hist' = Append(Tail(hist), s.s1)
   /\ last' = IF n.st > s.st THEN "down" ELSE IF n.st < s.st THEN "up" ELSE last
Spec == Init /\ [][Next]_vars
\* the state only changes to a level that was stable for the whole debounce time
Stable == [][s'.st # s.st => \A k \in 1..(MAX + 1) : hist'[k] = s'.st]_vars
Alternate == [][(s'.st > s.st => last = "up") /\ (s'.st < s.st => last = "down")]_vars
\* ... and it does change when it was stable that long
Follows == (\A k \in 1..(MAX + 1) : hist[k] = 1) => s.st = 1
Follows0 == (\A k \in 1..(MAX + 1) : hist[k] = 0) => s.st = 0
=============================================================================
