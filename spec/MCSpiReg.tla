----------------------------- MODULE MCSpiReg -------------------------------
(* Arbitrary bus operations against the register interface specification: a  *)
(* register holds the last value of which a complete transaction was made,   *)
(* and a read returns it, whatever aborted or oversized transactions happen. *)
EXTENDS Spi, TLC
A == 2
W == 2
Cfg == [n |-> A + 1, w |-> W, def |-> <<1, 0>>,
        regs |-> << [a |-> <<0, 0>>, kind |-> "const", size |-> 2, val |-> <<1, 1>>],
                    [a |-> <<0, 1>>, kind |-> "mem", size |-> 2, val |-> <<0, 1>>],
                    [a |-> <<1, 1>>, kind |-> "mem", size |-> 1, val |-> <<0>>],
                    [a |-> <<1, 0>>, kind |-> "wo", size |-> 2, val |-> <<0, 0>>] >>]
VARIABLES s, sel, bits, exp, good
vars == <<s, sel, bits, exp, good>>
Init == s = RInit(Cfg) /\ sel = 0 /\ bits = <<>> /\ exp = <<<<0, 1>>, <<0>>>> /\ good = TRUE
Ev(op, m, sdo, h, idle, stall) ==
  [op |-> op, m |-> m, sdo |-> sdo, ws |-> <<>>, inp |-> Rep(<<>>, 4), idle |-> idle, stall |-> stall,
   wsx |-> Rep(-1, 4), rs |-> Rep(-1, 4), wv |-> Rep(<<>>, 4), val |-> <<<<>>, h[1], h[2], <<>>>>]
Read(a) == CASE a = <<0, 0>> -> <<1, 1>> [] a = <<0, 1>> -> exp[1] [] a = <<1, 1>> -> <<0, exp[2][1]>> [] OTHER -> <<1, 0>>
Full(b) == Len(b) = A + 1 + W
Upd(b) == IF Full(b) /\ b[1] = 1
          THEN CASE SubSeq(b, 2, 3) = <<0, 1>> -> [exp EXCEPT ![1] = SubSeq(b, 4, 5)]
                 [] SubSeq(b, 2, 3) = <<1, 1>> -> [exp EXCEPT ![2] = <<b[5]>>]
                 [] OTHER -> exp
          ELSE exp
Do(op, m) ==
  LET b == IF op = "bit" THEN Append(bits, m) ELSE <<>>
      sdo == IF op = "bit" /\ Len(bits) > A /\ Len(bits) < A + 1 + W THEN Read(SubSeq(bits, 2, 3))[Len(bits) - A] ELSE 0
      r == RStep(Cfg, s, Ev(op, m, sdo, Upd(b), B(op = "des"), B(op # "des" /\ Len(b) >= A + 1 + W)))
  IN s' = r.s /\ bits' = b /\ exp' = Upd(b) /\ good' = (good /\ r.v = "ok")
Next == \/ sel = 1 /\ sel' = 0 /\ Do("des", 0)
        \/ sel = 0 /\ sel' = 1 /\ s.m.ph = "idle" /\ Do("sel", 0)
        \/ sel = 0 /\ sel' = 0 /\ s.m.ph = "stall" /\ Do("des", 0)
        \/ sel = 1 /\ Len(bits) < A + W + 3 /\ sel' = 1 /\ \E m \in 0..1 : Do("bit", m)
Spec == Init /\ [][Next]_vars
Sound == good
Holds == s.mem[2] = exp[1] /\ s.mem[3] = exp[2] /\ s.mem[1] = <<1, 1>>
=============================================================================
