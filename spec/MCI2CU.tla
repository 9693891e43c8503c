------------------------------- MODULE MCI2CU -------------------------------
(* The transmitter specification accepts exactly the wire symbols a correct  *)
(* sender produces: a generator sends queued packets (2 data bits stand for  *)
(* 8 through the constant bits) with arbitrary gaps and acknowledges; every  *)
(* deviation (dropped, repeated or altered bit) is rejected.                 *)
EXTENDS I2C
CONSTANT Bad
VARIABLES s, plan, v, left, broke
vars == <<s, plan, v, left, broke>>
C == [wait |-> 1000]
Words == {[d |-> <<a, 1, 0, 0, 1, 1, 0, a>>, first |-> f, last |-> l] : a \in 0..1, f, l \in 0..1}
(* wire levels <<scl, sda>> for a symbol, starting from SCL high             *)
Wave(x, a) == CASE x = "S" -> << <<1, 0>> >>
                [] x = "P" -> << <<0, 1>>, <<0, 0>>, <<1, 0>>, <<1, 1>> >>
                [] x = "0" -> << <<0, 0>>, <<1, 0>> >>
                [] x = "1" -> << <<0, 1>>, <<1, 1>> >>
                [] x = "A" -> << <<0, a>>, <<1, a>> >>
Ev(l, w) == [n |-> 1, scl |-> l[1], sda |-> l[2], oc |-> l[1], od |-> l[2], w |-> w, end |-> 0]
Init == s = UInit(C) /\ plan = <<>> /\ v = "ok" /\ left = 3 /\ broke = FALSE
Accept == /\ left > 0 /\ left' = left - 1 /\ Len(plan) < 12
          /\ \E w \in Words :
              /\ w.first = B(left = 3) /\ (left = 1 => w.last = 1) /\ (w.last = 1 => left = 1)
              /\ LET r == UStep(C, s, Ev(<<s.scl, s.sda>>, <<w>>)) IN s' = r.s /\ v' = r.v
              /\ \E x \in 0..2 :
                   LET p == Pack(w) bad == IF Bad /\ x = 1 THEN [p EXCEPT ![3] = IF @ = "0" THEN "1" ELSE "0"] ELSE IF Bad /\ x = 2 THEN SubSeq(p, 1, 4) \o SubSeq(p, 6, Len(p)) ELSE p
                   IN plan' = plan \o bad /\ broke' = (broke \/ bad # p)
RECURSIVE Run(_, _)
Run(st, l) == IF l = <<>> THEN [s |-> st, v |-> "ok"]
              ELSE LET r == UStep(C, st, Ev(Head(l), <<>>)) IN IF r.v # "ok" THEN r ELSE Run(r.s, Tail(l))
Send == /\ plan # <<>> /\ plan' = Tail(plan)
        /\ \E a \in 0..1 : LET r == Run(s, (IF Head(plan) = "S" THEN <<>> ELSE << <<0, s.sda>> >>) \o Wave(Head(plan), a)) IN s' = r.s /\ v' = r.v
        /\ UNCHANGED <<left, broke>>
Spec == Init /\ [][v = "ok" /\ (Accept \/ Send)]_vars
AcceptsGood == ~broke => v = "ok"
EndsEmpty == left = 0 /\ plan = <<>> /\ ~broke => s.exp = <<>>
RejectsBad == broke /\ left = 0 /\ plan = <<>> => v # "ok" \/ s.exp # <<>> \/ s.pend # <<>>
=============================================================================
