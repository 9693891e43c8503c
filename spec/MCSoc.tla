------------------------------- MODULE MCSoc --------------------------------
(* Components added one after the other at free addresses never overlap; and *)
(* what either bus writes is what either bus reads, in one address space.    *)
EXTENDS Soc, TLC
CONSTANTS SIZES, MAXC, WR
VARIABLES comps, rng, s, last
vars == <<comps, rng, s, last>>
C == [comps |-> comps, mems |-> [i \in DOMAIN comps |-> i], regs |-> <<>>]
Init == comps = <<>> /\ rng = <<>> /\ s = <<>> /\ last = <<>>
Top == IF rng = <<>> THEN 0 ELSE rng[Len(rng)][2]
Add == /\ s = <<>> /\ Len(comps) < MAXC
       /\ \E z \in SIZES, k \in {"rom", "ram"} :
            /\ comps' = Append(comps, [addr |-> -1, size |-> z, kind |-> k, init |-> <<1, 2>>, irq |-> 0])
            /\ rng' = Append(rng, <<SocAlloc(Top, z), SocAlloc(Top, z) + SocRound(z)>>)
       /\ UNCHANGED <<s, last>>
Build == s = <<>> /\ comps # <<>> /\ s' = SocNext(C, s, [k |-> "map", rng |-> rng]) /\ UNCHANGED <<comps, rng, last>>
Words == UNION {{a \in rng[i][1]..(rng[i][2] - 1) : a % 4 = 0} : i \in DOMAIN rng}
Write == /\ s # <<>>
         /\ \E a \in Words, sel \in {<<1, 0, 0, 0>>, <<0, 1, 0, 1>>, <<1, 1, 1, 1>>}, v \in {7, 9} :
              /\ s' = SocNext(C, s, [k |-> "bus", we |-> 1, a |-> a, sel |-> sel, w |-> Rep(v, 4)])
              /\ last' = <<a, sel, v>>
         /\ UNCHANGED <<comps, rng>>
Short == Cardinality({a \in 0..Top : SocAt(s, a) # {} /\ SocByte(s, a) \in {7, 9}}) <= WR
Next == Add \/ Build \/ Write
Spec == Init /\ [][Next]_vars
NoOverlap == \A i, j \in DOMAIN rng : i # j => Disjoint(rng[i], rng[j])
Aligned == \A i \in DOMAIN rng : rng[i][1] % (rng[i][2] - rng[i][1]) = 0 /\ rng[i][2] - rng[i][1] >= comps[i].size
OneOwner == \A a \in 0..Top : Cardinality(SocAt(s, a)) <= 1
Stored == last # <<>> => \A o \in 0..3 : T(last[2][o + 1]) /\ SocAt(s, last[1] + o) # {} =>
             LET i == CHOOSE i \in SocAt(s, last[1] + o) : TRUE IN
             IF T(s[i].ro) THEN s[i].data[last[1] + o - s[i].base + 1] = SocStart(C, [rng |-> rng])[i].data[last[1] + o - s[i].base + 1]
             ELSE SocByte(s, last[1] + o) = last[3]
Kept == [][s # <<>> /\ s' # s => \A a \in 0..Top : SocAt(s, a) # {} /\ SocByte(s', a) # SocByte(s, a)
             => last'[1] <= a /\ a < last'[1] + 4 /\ T(last'[2][a - last'[1] + 1])]_vars
=============================================================================
