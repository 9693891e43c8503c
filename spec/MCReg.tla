-------------------------------- MODULE MCReg -------------------------------
(* The intended address allocation (next free address, rounded up to the     *)
(* alignment; the size rounded up likewise) meets every mapping clause, for  *)
(* every list of up to MAXN requests; then interrupt register accesses.      *)
EXTENDS Soc, TLC
CONSTANTS MAXN, NEV
VARIABLES regs, rng, next, s, owed
vars == <<regs, rng, next, s, owed>>
Up(x, a) == ((x + Pow2(a) - 1) \div Pow2(a)) * Pow2(a)
Reqs == [al: 0..2, size: 1..3]
C == [regs |-> regs, wins |-> <<>>, nev |-> NEV]
Init == regs = <<>> /\ rng = <<>> /\ next = 0 /\ s = RegInit([nev |-> NEV]) /\ owed = [i \in 1..NEV |-> 0]
Request == /\ Len(regs) < MAXN
           /\ \E q \in Reqs : LET a == Up(next, q.al) b == a + Up(q.size, q.al) IN
              /\ regs' = Append(regs, [bank |-> 0, base |-> 0, addr |-> -1, al |-> q.al, size |-> q.size, acc |-> "rw", role |-> ""])
              /\ rng' = Append(rng, <<a, b>>) /\ next' = b
           /\ UNCHANGED <<s, owed>>
Pulse == \E i \in 1..NEV : /\ s' = RegNext(C, s, [k |-> "pulse", i |-> i]) /\ owed' = [owed EXCEPT ![i] = 1]
                           /\ UNCHANGED <<regs, rng, next>>
IrqC == [regs |-> << [role |-> "status"], [role |-> "pending"], [role |-> "enable"] >>]
Write == \E r \in 2..3, v \in 0..Pow2(NEV) - 1 :
           /\ s' = RegNext(IrqC, s, [k |-> "bus", reg |-> r, we |-> 1, v |-> v])
           /\ owed' = IF r = 2 THEN [i \in 1..NEV |-> IF (v \div Pow2(i - 1)) % 2 = 1 THEN 0 ELSE owed[i]] ELSE owed
           /\ UNCHANGED <<regs, rng, next>>
Next == Request \/ (Len(regs) = MAXN /\ (Pulse \/ Write))
Spec == Init /\ [][Next]_vars
Mapped == RegMap(C, [rng |-> rng, win |-> <<>>]) = "ok"
Owed == s.pend = owed
Line == RegIrq(s) = (\E i \in 1..NEV : owed[i] = 1 /\ s.en[i] = 1)
=============================================================================
