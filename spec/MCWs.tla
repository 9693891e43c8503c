-------------------------------- MODULE MCWs --------------------------------
(* The smallest chain driver, cycle by cycle, against the specification, with *)
(* writes and starts at any time (colours of one bit repeated 24 times).      *)
EXTENDS Ws, TLC
CONSTANTS N
C == [n |-> N, h0 |-> 1, h1 |-> 2, per |-> 3, rst |-> 4, lat |-> 1]
VARIABLES s, ok, cyc, on, k, j, cur, mem, len, lev, ndone
vars == <<s, ok, cyc, on, k, j, cur, mem, len, lev, ndone>>
Colour(b) == Rep(b, 24)
Init == s = WsInit(C) /\ ok = TRUE /\ cyc = 0 /\ on = "idle" /\ k = 0 /\ j = 0 /\ cur = 0
        /\ mem = [i \in 0..N-1 |-> 0] /\ len = 0 /\ lev = 1 /\ ndone = 0
Do(evs) == LET RECURSIVE F(_, _, _)
               F(x, v, q) == IF q = <<>> THEN [s |-> x, v |-> v]
                             ELSE LET r == WsStep(C, x, Head(q)) IN F(r.s, v /\ r.v = "ok", Tail(q))
               R == F(s, ok, evs)
           IN s' = R.s /\ ok' = R.v
Edge(l, tail) == (IF l = lev THEN <<>> ELSE <<[op |-> IF l = 1 THEN "up" ELSE "down", len |-> len, t |-> 0]>>) \o tail
Lev(l) == lev' = l /\ len' = IF l = lev THEN Min2(len + 1, 9) ELSE 1
Next ==
  \/ /\ on = "idle" /\ UNCHANGED <<k, j, cur, mem, ndone>> /\ Lev(1)
     /\ \/ on' = on /\ cyc' = cyc /\ Do(Edge(1, <<[op |-> "idle"]>>))
        \/ on' = "rst" /\ cyc' = 0 /\ Do(Edge(1, <<[op |-> "start"]>>))
  \/ /\ on = "idle" /\ \E a \in 0..N-1, b \in 0..1 :
          /\ mem[a] # b /\ mem' = [mem EXCEPT ![a] = b]
          /\ Do(Edge(1, <<[op |-> "write", t |-> 0 - 50, a |-> a, v |-> Colour(b)]>>))
     /\ Lev(1) /\ UNCHANGED <<on, cyc, k, j, cur, ndone>>
  \/ /\ on = "rst" /\ Lev(0) /\ UNCHANGED <<mem, ndone>>
     /\ cyc' = (cyc + 1) % 5
     /\ Do(Edge(0, <<>>))
     /\ IF cyc = 4 THEN on' = "bit" /\ k' = 0 /\ j' = 0 /\ cur' = mem[0] ELSE UNCHANGED <<on, k, j, cur>>
  \/ /\ on = "bit" /\ LET l == B(cyc < (IF cur = 1 THEN 2 ELSE 1)) IN Lev(l) /\ Do(Edge(l, <<>>))
     /\ UNCHANGED <<mem, ndone>>
     /\ IF cyc < 2 THEN cyc' = cyc + 1 /\ UNCHANGED <<on, k, j, cur>>
        ELSE /\ cyc' = 0
             /\ j' = (j + 1) % 24
             /\ k' = IF j = 23 THEN (k + 1) % N ELSE k
             /\ cur' = IF j = 23 THEN mem[(k + 1) % N] ELSE cur
             /\ on' = IF j = 23 /\ k = N - 1 THEN "fin" ELSE "bit"
  \/ /\ on = "fin" /\ Lev(0) /\ cyc' = (cyc + 1) % 5 /\ UNCHANGED <<k, j, cur, mem>>
     /\ on' = IF cyc = 4 THEN "idle" ELSE "fin"
     /\ ndone' = IF cyc = 4 THEN 1 - ndone ELSE ndone
     /\ Do(Edge(0, IF cyc = 4 THEN <<[op |-> "done", len |-> len + 1]>> ELSE <<>>))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NoVerdict == ok
=============================================================================
