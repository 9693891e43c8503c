------------------------------ MODULE MCSpi ---------------------------------
(* A bus master of every SPI mode (a free-running one, observed as a         *)
(* controller) against the device specification: words arrive intact in both *)
(* directions, for several words per selection and aborted words.            *)
EXTENDS Spi, TLC
CONSTANTS Pol, Pha, Msb, Csh, W, Cdc
Cfg == [cdc |-> Cdc, pol |-> Pol, pha |-> Pha, msb |-> Msb, csh |-> Csh, w |-> W, div |-> 0]
VARIABLES d, sel, ck, sdi, age, sent, seen, wo, wsent, bad, n, q
vars == <<d, sel, ck, sdi, age, sent, seen, wo, wsent, bad, n, q>>
Hold == Cdc + 3
Init == /\ d = DInit(Cfg) /\ sel = 0 /\ ck = 0 /\ sdi = 0 /\ age = 0 /\ sent = <<>> /\ seen = <<>>
        /\ wo = 0 /\ wsent = 0 /\ bad = FALSE /\ n = 0 /\ q = <<>>
(* every cycle the device sees the present levels; the master may change one *)
(* level once the present one has lasted Hold cycles                         *)
Ev == [cs |-> (sel + Csh) % 2, sck |-> (ck + Pol) % 2, sdi |-> sdi, wo |-> wo]
(* the master samples when it makes the sampling edge, puts a bit when it makes the other *)
Lead == sel = 1 /\ ck = 0 /\ ck' = 1
Trail == sel = 1 /\ ck = 1 /\ ck' = 0
Smp == IF Pha = 1 THEN Trail ELSE Lead
Master ==
  \/ /\ age < Hold /\ age' = age + 1 /\ UNCHANGED <<sel, ck, sdi, sent, seen, wo, wsent, n>>
  \/ /\ age >= Hold /\ sel = 0 /\ ck' = 0
     /\ \/ /\ sel' = 1 /\ wsent' = wo /\ UNCHANGED <<wo>>
           /\ sent' = <<>> /\ seen' = <<>>
           /\ IF Pha = 0 THEN sdi' \in 0..1 ELSE sdi' = sdi
        \/ /\ sel' = 0 /\ wo' \in 0..Pow2(W) - 1 /\ UNCHANGED <<wsent, sdi, sent, seen>>
     /\ age' = 0 /\ n' = 0
  \/ /\ age >= Hold /\ sel = 1 /\ ck' = 1 - ck /\ sel' = 1 /\ n < 2 * W /\ age' = 0
     /\ IF Smp THEN /\ sent' = Append(sent, sdi) /\ seen' = Append(seen, d.sdo) /\ n' = n + 1 /\ UNCHANGED sdi
               ELSE sdi' \in 0..1 /\ UNCHANGED <<sent, seen, n>>
     /\ UNCHANGED <<wo, wsent>>
  \/ /\ age >= Hold /\ sel = 1 /\ ck = 0 /\ sel' = 0 /\ ck' = 0 /\ age' = 0
     /\ UNCHANGED <<sdi, sent, seen, wo, wsent, n>>
Next == /\ d' = DNext(Cfg, d, Ev)
        /\ Master
        \* completed words of this selection as the device reports them
        /\ q' = IF sel = 0 /\ sel' = 1 THEN <<>> ELSE IF d'.wc = 1 THEN Append(q, d'.wi) ELSE q
        /\ bad' = (bad \/ (d'.wc = 1 /\ Len(q) >= 2))
Spec == Init /\ [][Next]_vars
WordAt(x, k) == Word(Cfg, SubSeq(x, (k - 1) * W + 1, k * W))
Received == \A k \in 1..Len(q) : k * W <= Len(sent) /\ q[k] = WordAt(sent, k)
Complete == (age >= Hold /\ sel = 1) => Len(q) = Len(sent) \div W
Transmitted == \A k \in 1..Len(seen) \div W : WordAt(seen, k) = wsent
NoSurplus == ~bad
=============================================================================
