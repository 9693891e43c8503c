----------------------------- MODULE MCArbiterG -----------------------------
(* The arbiter alone under arbitrary inputs: its complete state graph.       *)
EXTENDS Arbiter, TLC
VARIABLES s, inp
I == [v1: {0,1}, v2: {0,1}, v3: {0,1}, rdy: {0,1}]
Init == s = AInit([n |-> 3]) /\ inp = [v1 |-> 0, v2 |-> 0, v3 |-> 0, rdy |-> 0]
Next == \E i \in I : inp' = i /\ s' = ANext([n |-> 3], s, <<i.v1, i.v2, i.v3>>)
Spec == Init /\ [][Next]_<<s, inp>>
NoSwitchWhileValid == [][(<<inp'.v1, inp'.v2, inp'.v3>>)[s.act] # 0 => s'.act = s.act]_<<s, inp>>
PriorityOK == [][s'.act # s.act => \A k \in 1..(s'.act - 1) : (<<inp'.v1, inp'.v2, inp'.v3>>)[k] = 0]_<<s, inp>>
=============================================================================
