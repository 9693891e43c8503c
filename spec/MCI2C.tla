-------------------------------- MODULE MCI2C -------------------------------
(* The initiator's state machine (one step per quarter period) on a bus with *)
(* a device that acknowledges, sends and stretches as it likes.  Bytes are W *)
(* bits long here.  Checked: the wire carries exactly what was commanded,    *)
(* both sides agree on every bit, SDA is stable during SCL high except for   *)
(* START/STOP, and every command ends although the device may stretch.       *)
EXTENDS I2C
CONSTANTS W, MaxCmds
VARIABLES st, oc, od, dc, dd, cmd, d, k, bitno, r, acko, got, own, fresh, open, n, turn
vars == <<st, oc, od, dc, dd, cmd, d, k, bitno, r, acko, got, own, fresh, open, n, turn>>
Scl == Min2(oc, dc)
Sda == Min2(od, dd)
Init == /\ st = "IDLE" /\ oc = 1 /\ od = 1 /\ dc = 1 /\ dd = 1 /\ cmd = "none" /\ d = Rep(0, W) /\ k = 0 /\ bitno = 0
        /\ r = <<>> /\ acko = 0 /\ got = <<>> /\ own = <<>> /\ fresh = FALSE /\ open = FALSE /\ n = 0 /\ turn = 0

(* bookkeeping of the wire when the levels become oc', od', dc', dd' *)
Wire == LET s1 == Min2(oc', dc') a1 == Min2(od', dd') sy == Sym(Scl, Sda, s1, a1) IN
        /\ got' = Push(got, sy, fresh)
        /\ own' = IF Scl = 0 /\ s1 = 1 THEN Append(own, od') ELSE own
        /\ fresh' = (IF Scl = 0 /\ s1 = 1 THEN TRUE ELSE IF s1 = 0 THEN FALSE ELSE fresh)

Issue == /\ st = "IDLE" /\ n < MaxCmds /\ n' = n + 1
         /\ \E c \in (IF open THEN {"start", "stop", "write", "read"} ELSE {"start"}) :
              /\ ~(c = "start" /\ cmd = "start")
              /\ cmd' = c /\ open' = (c # "stop")
              /\ st' = CASE c = "start" -> (IF Scl = 1 /\ Sda = 1 THEN "START-SDA-L" ELSE IF Scl = 0 THEN "START-SCL-H" ELSE "START-SCL-L")
                         [] c = "stop"  -> (IF Scl = 1 /\ od = 0 THEN "STOP-SDA-H" ELSE IF Scl = 0 THEN "STOP-SCL-H" ELSE "STOP-SCL-L")
                         [] c = "write" -> "WRITE-DATA-SCL-L"
                         [] c = "read"  -> "READ-DATA-SCL-L"
         /\ \E dd0 \in [1..W -> 0..1] : d' = dd0
         /\ \E kk \in 0..1 : k' = kk
         /\ bitno' = 0 /\ r' = <<>> /\ got' = <<>> /\ own' = <<>> /\ fresh' = FALSE /\ turn' = 0
         /\ UNCHANGED <<oc, od, dc, dd, acko>>

SclL == {"START-SCL-L", "STOP-SCL-L", "WRITE-DATA-SCL-L", "WRITE-ACK-SCL-L", "READ-DATA-SCL-L", "READ-ACK-SCL-L"}
SclH == {"START-SCL-H", "STOP-SCL-H", "WRITE-DATA-SCL-H", "WRITE-ACK-SCL-H", "READ-DATA-SCL-H", "READ-ACK-SCL-H"}
AfterL(s) == CASE s = "START-SCL-L" -> "START-SDA-H" [] s = "STOP-SCL-L" -> "STOP-SDA-L" [] s = "WRITE-DATA-SCL-L" -> "WRITE-DATA-SDA-X"
               [] s = "WRITE-ACK-SCL-L" -> "WRITE-ACK-SDA-H" [] s = "READ-DATA-SCL-L" -> "READ-DATA-SDA-H" [] s = "READ-ACK-SCL-L" -> "READ-ACK-SDA-X"
AfterH(s) == CASE s = "START-SCL-H" -> "START-SDA-L" [] s = "STOP-SCL-H" -> "STOP-SDA-H" [] s = "WRITE-DATA-SCL-H" -> "WRITE-DATA-SDA-N"
               [] s = "WRITE-ACK-SCL-H" -> "WRITE-ACK-SDA-N" [] s = "READ-DATA-SCL-H" -> "READ-DATA-SDA-N" [] s = "READ-ACK-SCL-H" -> "READ-ACK-SDA-N"
AfterX(s) == CASE s = "START-SDA-H" -> "START-SCL-H" [] s = "START-SDA-L" -> "IDLE" [] s = "STOP-SDA-L" -> "STOP-SCL-H" [] s = "STOP-SDA-H" -> "IDLE"
               [] s = "WRITE-DATA-SDA-X" -> "WRITE-DATA-SCL-H" [] s = "WRITE-DATA-SDA-N" -> (IF bitno = W - 1 THEN "WRITE-ACK-SCL-L" ELSE "WRITE-DATA-SCL-L")
               [] s = "WRITE-ACK-SDA-H" -> "WRITE-ACK-SCL-H" [] s = "WRITE-ACK-SDA-N" -> "IDLE"
               [] s = "READ-DATA-SDA-H" -> "READ-DATA-SCL-H" [] s = "READ-DATA-SDA-N" -> (IF bitno = W - 1 THEN "READ-ACK-SCL-L" ELSE "READ-DATA-SCL-L")
               [] s = "READ-ACK-SDA-X" -> "READ-ACK-SCL-H" [] s = "READ-ACK-SDA-N" -> "IDLE"
SdaX(s) == CASE s \in {"START-SDA-H", "WRITE-ACK-SDA-H", "READ-DATA-SDA-H", "STOP-SDA-H"} -> 1
             [] s \in {"START-SDA-L", "STOP-SDA-L"} -> 0
             [] s = "WRITE-DATA-SDA-X" -> d[bitno + 1]
             [] s = "READ-ACK-SDA-X" -> 1 - k
             [] OTHER -> od
Quarter == /\ st # "IDLE" /\ dc' = dc /\ dd' = dd
           /\ \/ /\ st \in SclL /\ oc' = 0 /\ od' = od /\ st' = AfterL(st) /\ UNCHANGED <<bitno, r, acko>>
              \/ /\ st \in SclH /\ oc = 0 /\ oc' = 1 /\ od' = od /\ st' = st /\ UNCHANGED <<bitno, r, acko>>
              \/ /\ st \in SclH /\ oc = 1 /\ Scl = 1 /\ st' = AfterH(st) /\ UNCHANGED <<oc, od, bitno>>
                 /\ acko' = IF st = "WRITE-ACK-SCL-H" THEN 1 - Sda ELSE acko
                 /\ r' = IF st = "READ-DATA-SCL-H" THEN Append(r, Sda) ELSE r
              \/ /\ st \notin SclL \cup SclH /\ oc' = oc /\ od' = SdaX(st) /\ st' = AfterX(st) /\ UNCHANGED <<r, acko>>
                 /\ bitno' = IF st \in {"WRITE-DATA-SDA-N", "READ-DATA-SDA-N"} THEN bitno + 1 ELSE bitno
           /\ turn' = 0
           /\ Wire /\ UNCHANGED <<cmd, d, k, open, n>>
(* the device: changes SDA only while SCL is low and it is its turn, may hold SCL low *)
Its == \/ cmd = "write" /\ st \in {"WRITE-ACK-SDA-H", "WRITE-ACK-SCL-H"}
       \/ cmd = "read" /\ st \in {"READ-DATA-SDA-H", "READ-DATA-SCL-H"}
Device == /\ st # "IDLE" /\ Scl = 0 /\ turn < 2 /\ turn' = turn + 1
          /\ oc' = oc /\ od' = od
          /\ \/ /\ dc' \in {0, 1} /\ dd' = dd /\ dc' # dc
             \/ /\ Its /\ dd' \in {0, 1} /\ dc' = dc
             \/ /\ ~Its /\ dd' = 1 /\ dd = 0 /\ dc' = dc
          \* data of the device is in place before it lets the clock go, and nothing of an old turn is left
          /\ (dc' = 1 /\ oc = 1 /\ ~Its => dd' = 1)
          /\ Wire /\ UNCHANGED <<st, cmd, d, k, bitno, r, acko, open, n>>
Released == st \in SclH /\ oc = 0 /\ ~Its => dd = 1       \* the device is fast enough to have let go of SDA
Next == Issue \/ (Quarter /\ Released) \/ Device
Free == dc = 0 /\ st # "IDLE" /\ dc' = 1 /\ dd' = (IF Its THEN dd ELSE 1) /\ oc' = oc /\ od' = od /\ turn' = turn /\ Wire /\ UNCHANGED <<st, cmd, d, k, bitno, r, acko, open, n>>
LetGo == ~Its /\ dd = 0 /\ Scl = 0 /\ dd' = 1 /\ dc' = dc /\ oc' = oc /\ od' = od /\ turn' = turn /\ Wire /\ UNCHANGED <<st, cmd, d, k, bitno, r, acko, open, n>>
NextF == Next \/ Free \/ LetGo
Spec == Init /\ [][NextF]_vars /\ SF_vars(Quarter /\ Released) /\ WF_vars(Free) /\ WF_vars(LetGo)

OwnW(i) == CASE cmd = "write" -> IF i <= W THEN d[i] ELSE 1 [] cmd = "read" -> IF i <= W THEN 1 ELSE 1 - k [] OTHER -> 1
Complete == st = "IDLE" /\ cmd # "none" =>
  IF cmd \in {"start", "stop"} THEN got = Wanted(cmd)
  ELSE /\ Len(got) = W + 1 /\ \A i \in 1..(W + 1) : got[i] \in {"0", "1"} /\ own[i] = OwnW(i)
       /\ cmd = "write" => /\ \A i \in 1..W : got[i] = BitSym(d[i])
                           /\ acko = (IF got[W + 1] = "0" THEN 1 ELSE 0)
       /\ cmd = "read" => r = [i \in 1..W |-> IF got[i] = "1" THEN 1 ELSE 0]
Stable == [][od' # od => (Scl = 0 \/ (cmd = "start" /\ od' = 0) \/ (cmd = "stop" /\ od' = 1))]_vars
Ends == st # "IDLE" ~> st = "IDLE"
=============================================================================
