--------------------------------- MODULE Soc --------------------------------
(* System-on-chip parts of amlib: Wishbone memories, interrupt sources, the  *)
(* register file of a peripheral, the serial port peripheral and the SoC.    *)
EXTENDS Kit, FiniteSets

(* ---- WishboneRAM / WishboneROM: one step per clock cycle. -----------------
   A word is a sequence of c.lanes lanes of c.g bits.  c.bytes # <<>>: the
   initial contents are given as bytes (c.big: most significant byte first),
   otherwise as the words c.words; the rest of the memory is zero.           *)
RECURSIVE LeSum(_, _, _)
LeSum(b, i, n) == IF n = 0 THEN 0
                  ELSE (IF i \in DOMAIN b THEN b[i] ELSE 0) + 256 * LeSum(b, i + 1, n - 1)
RECURSIVE BeSum(_, _, _)
BeSum(b, i, n) == IF n = 0 THEN 0
                  ELSE 256 * BeSum(b, i, n - 1) + (IF (i + n - 1) \in DOMAIN b THEN b[i + n - 1] ELSE 0)
MemWord(c, k) ==                            \* k = 1 .. c.depth
  LET lb == c.g \div 8 IN
  IF c.bytes # <<>>
  THEN [l \in 1..c.lanes |->
          IF T(c.big) THEN BeSum(c.bytes, ((k - 1) * c.lanes + (c.lanes - l)) * lb + 1, lb)
                      ELSE LeSum(c.bytes, ((k - 1) * c.lanes + (l - 1)) * lb + 1, lb)]
  ELSE IF k \in DOMAIN c.words THEN c.words[k] ELSE Rep(0, c.lanes)
WbInit(c) == [mem |-> [k \in 1..c.depth |-> MemWord(c, k)], ack |-> 0, rd |-> 0, adr |-> 0]
WbMerge(old, sel, new) == [l \in DOMAIN old |-> IF T(sel[l]) THEN new[l] ELSE old[l]]
WbNext(c, s, e) ==
  LET req == T(e.cyc) /\ T(e.stb) IN
  [mem |-> IF req /\ T(e.we) /\ ~T(c.ro)
           THEN [s.mem EXCEPT ![e.adr + 1] = WbMerge(@, e.sel, e.w)] ELSE s.mem,
   ack |-> B(req /\ ~T(s.ack)), rd |-> B(req /\ ~T(e.we)), adr |-> e.adr]
WbStep(c, s, e) ==
  [s |-> WbNext(c, s, e),
   v |-> Judge(<< <<"one acknowledge in the cycle after each request", e.ack = s.ack>>,
                  <<"an acknowledged read returns the addressed word",
                    T(s.ack) /\ T(s.rd) => e.r = s.mem[s.adr + 1]>> >>)]

(* ---- InterruptSource: one step per clock cycle. ---------------------------
   c.modes[i] \in {"level", "rise", "fall"}.                                  *)
IrqInit(c) == [prev |-> Rep(0, Len(c.modes)), pend |-> Rep(0, Len(c.modes)), en |-> Rep(0, Len(c.modes))]
Trig(m, p, x) == CASE m = "level" -> T(x) [] m = "rise" -> ~T(p) /\ T(x) [] m = "fall" -> T(p) /\ ~T(x)
IrqNext(c, s, e) ==
  [prev |-> e.stb,
   pend |-> [i \in DOMAIN s.pend |-> IF Trig(c.modes[i], s.prev[i], e.stb[i]) THEN 1
                                     ELSE IF T(e.pw) /\ T(e.pd[i]) THEN 0 ELSE s.pend[i]],
   en   |-> IF T(e.ew) THEN e.ed ELSE s.en]
IrqLine(s) == \E i \in DOMAIN s.pend : T(s.pend[i]) /\ T(s.en[i])
IrqStep(c, s, e) ==
  [s |-> IrqNext(c, s, e),
   v |-> Judge(<< <<"status shows the strobes", e.status = s.prev>>,
                  <<"pending: set by every event, cleared only by writing 1", e.pend = s.pend>>,
                  <<"enable holds the value last written", e.en = s.en>>,
                  <<"interrupt requested iff an enabled event is pending", T(e.irq) = IrqLine(s)>> >>)]

(* ---- Register map and register accesses of a Peripheral. ------------------
   c.regs[i] = [bank, base (address of the bank, -1: free), addr (-1: free),
   al, size (bytes), acc, role] in request order, the interrupt registers (role
   status, pending, enable) last, as a bank of their own; c.nev events;
   event "map": e.rng = <<start, end>> of every register.
   event "bus": one Wishbone transfer; e.reg = its register (0: none),
   e.rs/e.ws = strobes seen per register, e.wv = written values, e.q = values
   offered by the registers, e.v = value written, e.r = value read.           *)
RegInit(c) == [pend |-> Rep(0, c.nev), en |-> Rep(0, c.nev)]
Disjoint(a, b) == a[2] <= b[1] \/ b[2] <= a[1]
Plain(r) == r.role = ""
Same(c, i, j) == c.regs[i].bank = c.regs[j].bank
RegMap(c, e) ==
  LET N == 1..Len(c.regs) IN
  Judge(<<
     <<"every requested register is mapped", Len(e.rng) = Len(c.regs) /\ \A i \in N : e.rng[i][1] < e.rng[i][2]>>,
     <<"registers do not overlap", \A i, j \in N : i # j => Disjoint(e.rng[i], e.rng[j])>>,
     <<"windows do not overlap anything", \A w \in DOMAIN e.win : (\A i \in N : Disjoint(e.win[w], e.rng[i]))
                                          /\ (\A x \in DOMAIN e.win : x # w => Disjoint(e.win[w], e.win[x]))>>,
     <<"registers are aligned as requested", \A i \in N : e.rng[i][1] % Pow2(c.regs[i].al) = 0>>,
     <<"a register has all its bytes", \A i \in N : e.rng[i][2] - e.rng[i][1] >= c.regs[i].size>>,
     <<"a register lies at the requested address",
        \A i \in N : (c.regs[i].base >= 0 /\ c.regs[i].addr >= 0) => e.rng[i][1] = c.regs[i].base + c.regs[i].addr>>,
     <<"registers of a bank lie at the requested distance",
        \A i, j \in N : (Same(c, i, j) /\ c.regs[i].addr >= 0 /\ c.regs[j].addr >= 0)
                        => e.rng[i][1] - e.rng[j][1] = c.regs[i].addr - c.regs[j].addr>>,
     <<"a bank lies at the requested address",
        \A i \in N : (c.regs[i].base >= 0 /\ c.regs[i].addr < 0 /\ ~(\E j \in N : j < i /\ Same(c, i, j)))
                       => e.rng[i][1] = c.regs[i].base>>,
     <<"a window lies at the requested address", \A w \in DOMAIN e.win : c.wins[w] >= 0 => e.win[w][1] = c.wins[w]>>,
     <<"registers of a bank keep their order: each lies behind the one before it, unless placed elsewhere", \A i \in N :
        (i + 1 \in N /\ Same(c, i, i + 1) /\ c.regs[i + 1].addr < 0) => e.rng[i + 1][1] >= e.rng[i][2]>> >>)
RegIrq(s) == \E i \in DOMAIN s.pend : T(s.pend[i]) /\ T(s.en[i])
RegVal(c, s, e) ==           \* value of an interrupt register, least significant bit = first event
  LET r == c.regs[e.reg].role IN
  IF r = "pending" THEN FromLSB(s.pend) ELSE IF r = "enable" THEN FromLSB(s.en) ELSE 0
RegNext(c, s, e) ==
  IF e.k = "pulse" THEN [s EXCEPT !.pend[e.i] = 1]
  ELSE IF e.k = "bus" /\ e.reg > 0 /\ T(e.we)
  THEN CASE c.regs[e.reg].role = "pending" -> [s EXCEPT !.pend = [i \in DOMAIN @ |-> IF Bit(e.v, i - 1) = 1 THEN 0 ELSE @[i]]]
         [] c.regs[e.reg].role = "enable"  -> [s EXCEPT !.en = [i \in DOMAIN @ |-> Bit(e.v, i - 1)]]
         [] OTHER -> s
  ELSE s
RegStep(c, s, e) ==
  LET N == 1..Len(c.regs) IN
  [s |-> RegNext(c, s, e),
   v |-> CASE e.k = "map" -> RegMap(c, e)
           [] e.k = "pulse" -> Judge(<< <<"interrupt line follows enabled pending events", T(e.irq) = RegIrq(RegNext(c, s, e))>> >>)
           [] e.k = "win" -> Judge(<<
     <<"every transfer is acknowledged", T(e.ack)>>,
     <<"a window sees its own transfers, and only those", \A w \in DOMAIN e.seen : e.seen[w] = B(w = e.w)>>,
     <<"a window sees address, data and lanes unchanged", T(e.same)>>,
     <<"no register is touched", \A i \in N : e.rs[i] = 0 /\ e.ws[i] = 0>> >>)
           [] e.k = "bus" -> Judge(<<
     <<"every transfer is acknowledged", T(e.ack)>>,
     <<"windows see only their own transfers", \A w \in DOMAIN e.seen : e.seen[w] = 0>>,
     <<"only the addressed register is read", \A i \in N : e.rs[i] = B(i = e.reg /\ ~T(e.we) /\ c.regs[i].acc # "w")>>,
     <<"only the addressed register is written", \A i \in N : e.ws[i] = B(i = e.reg /\ T(e.we) /\ c.regs[i].acc # "r")>>,
     <<"the register receives the written value", e.reg > 0 /\ T(e.we) /\ c.regs[e.reg].acc # "r" => e.wv[e.reg] = e.v>>,
     <<"the bus returns the register's value", e.reg > 0 /\ ~T(e.we) /\ c.regs[e.reg].acc # "w" =>
          e.r = (IF Plain(c.regs[e.reg]) THEN e.q[e.reg] ELSE RegVal(c, s, e))>>,
     <<"interrupt line follows enabled pending events", T(e.irq) = RegIrq(RegNext(c, s, e))>> >>)]

(* ---- UARTPeripheral, as its driver and its line see it. ------------------- 
   c: div, txd, rxd (FIFO depths).  pend/ien: <<rx_rdy, rx_err, tx_mty>>; 2 is
   for not known: a word was written just when the FIFO may have run empty.
   txq holds the word on the line, too: the FIFO runs empty when that is the
   last one.                                                                  *)
UpInit(c) == [en |-> 0, div |-> c.div, txq |-> <<>>, rxq |-> <<>>, fe |-> 0, pe |-> 0, ov |-> 0,
              pend |-> <<0, 0, 1>>, ien |-> <<0, 0, 0>>]
UpErr(s) == T(s.fe) \/ T(s.pe) \/ T(s.ov)
UpPend(s) == <<IF s.rxq # <<>> THEN 1 ELSE s.pend[1], s.pend[2], s.pend[3]>>   \* rx_rdy is level triggered
UpRx(c, s, e) ==
  LET n == IF Len(s.rxq) < c.rxd
           THEN [s EXCEPT !.rxq = Append(@, e.v), !.fe = e.fe, !.pe = e.pe, !.ov = 0, !.pend[1] = 1]
           ELSE [s EXCEPT !.ov = 1]
  IN [n EXCEPT !.pend[2] = IF UpErr(n) /\ ~UpErr(s) THEN 1 ELSE @]
UpNext(c, s, e) ==
  CASE e.k = "enable" -> [s EXCEPT !.en = e.v]
    [] e.k = "div"    -> [s EXCEPT !.div = e.v]
    [] e.k = "txw"    -> IF T(s.en) /\ T(e.rdy) THEN [s EXCEPT !.txq = Append(@, e.v), !.pend[3] = IF s.txq = <<>> THEN 1 ELSE @] ELSE s
    [] e.k = "line"   -> [s EXCEPT !.txq = Drop(@, 1), !.pend[3] = IF @ \in 1..2 THEN @ ELSE IF Len(s.txq) = 1 THEN 1 ELSE IF T(e.race) THEN 2 ELSE IF Len(s.txq) = 2 THEN 1 ELSE @]
    [] e.k = "rx"     -> UpRx(c, s, e)
    [] e.k = "rxr"    -> [s EXCEPT !.rxq = Drop(@, 1)]
    [] e.k = "ien"    -> [s EXCEPT !.ien = e.v]
    [] e.k = "clr"    -> [s EXCEPT !.pend = [i \in 1..3 |-> IF T(e.v[i]) /\ (i = 1 => s.rxq = <<>>)
                                                        THEN IF i = 3 /\ Len(s.txq) \in 1..2 THEN 2 ELSE 0 ELSE UpPend(s)[i]]]
    [] OTHER -> s
UpStep(c, s, e) ==
  [s |-> UpNext(c, s, e),
   v |-> CASE e.k = "rdiv"  -> Judge(<< <<"divisor register holds the divisor", e.v = s.div>> >>)
           [] e.k = "txrdy" -> Judge(<< <<"transmitter ready while its FIFO has room", Len(s.txq) < c.txd => e.v = 1>>,
                                        <<"transmitter not ready when its FIFO is full", Len(s.txq) >= c.txd + 2 => e.v = 0>> >>)
           [] e.k = "line"  -> Judge(<< <<"only written words are transmitted", s.txq # <<>> >>,
                                        <<"words are transmitted unchanged and in order", s.txq # <<>> => e.v = Head(s.txq)>>,
                                        <<"well formed frame at the programmed rate", T(e.ok)>>,
                                        <<"driving while transmitting", T(e.drv)>> >>)
           [] e.k = "rxrdy" -> Judge(<< <<"receiver ready iff an unread word is there", e.v = B(s.rxq # <<>>)>> >>)
           [] e.k = "rxr"   -> Judge(<< <<"received words are read unchanged, once and in order", s.rxq # <<>> => e.v = Head(s.rxq)>> >>)
           [] e.k = "rerr"  -> Judge(<< <<"error register: overflow, frame, parity", e.v = <<s.ov, s.fe, s.pe>> >> >>)
           [] e.k = "pend"  -> Judge(<< <<"pending events", \A i \in 1..3 : UpPend(s)[i] # 2 => e.v[i] = UpPend(s)[i]>>,
                                        <<"interrupt line", ~(UpPend(s)[3] = 2 /\ T(s.ien[3])) => T(e.irq) = (\E i \in 1..3 : T(UpPend(s)[i]) /\ T(s.ien[i]))>> >>)
           [] e.k = "drained" -> Judge(<< <<"every written word was transmitted", s.txq = <<>> >>,
                                          <<"the line is idle after the last frame", T(e.idle)>>,
                                          <<"not driving when idle", ~T(e.drv)>> >>)
           [] OTHER -> IF T(e.ack) THEN "ok" ELSE "every transfer is acknowledged"]

(* ---- SimpleSoC: one address space for both buses of the processor. --------
   c.comps[i] = [addr (requested, -1: free), size (bytes asked for), kind,
   init (initial bytes), irq (0/1)] in the order they were added;
   c.bios: BIOS memories were added and are omitted by resources().
   Regions: the memories, and the registers of the peripherals (c.regs[j] =
   [comp, bytes]).  State: the regions [base, data (bytes)].                  *)
SocInit(c) == <<>>
SocStart(c, e) ==
  [i \in DOMAIN c.mems |-> [base |-> e.rng[c.mems[i]][1], lim |-> e.rng[c.mems[i]][2] - e.rng[c.mems[i]][1],
                            ro |-> B(c.comps[c.mems[i]].kind = "rom"),
                            data |-> [k \in 1..(e.rng[c.mems[i]][2] - e.rng[c.mems[i]][1]) |->
                                        IF k \in DOMAIN c.comps[c.mems[i]].init THEN c.comps[c.mems[i]].init[k] ELSE 0]]]
  \o [j \in DOMAIN c.regs |-> [base |-> e.reg[j][1], lim |-> c.regs[j].bytes, ro |-> 0, data |-> Rep(0, e.reg[j][2] - e.reg[j][1])]]
SocRound(n) == CHOOSE p \in {Pow2(k) : k \in 0..20} : p >= n /\ p < 2 * n
SocMap(c, e) ==
  LET N == 1..Len(c.comps)
      mem(i) == c.comps[i].kind \in {"rom", "ram"} IN
  Judge(<<
     <<"every component is mapped", Len(e.rng) = Len(c.comps) /\ \A i \in N : e.rng[i][1] < e.rng[i][2]>>,
     <<"components do not overlap", \A i, j \in N : i # j => Disjoint(e.rng[i], e.rng[j])>>,
     <<"a component lies at the requested address", \A i \in N : c.comps[i].addr >= 0 => e.rng[i][1] = c.comps[i].addr>>,
     <<"a memory has the requested size, rounded up to a power of two",
        \A i \in N : mem(i) => e.rng[i][2] - e.rng[i][1] = SocRound(c.comps[i].size)>>,
     <<"registers lie in their peripheral", \A j \in DOMAIN c.regs :
        e.reg[j][1] >= e.rng[c.regs[j].comp][1] /\ e.reg[j][2] <= e.rng[c.regs[j].comp][2]>>,
     <<"resources() lists every memory at its address",
        \A i \in N : mem(i) => (\E x \in DOMAIN e.res : e.res[x] = <<i, e.rng[i][1], e.rng[i][2] - e.rng[i][1]>>)>>,
     <<"resources() lists BIOS memories only on demand", \A i \in N : c.comps[i].kind = "bios" =>
           (T(e.omit) <=> ~(\E x \in DOMAIN e.res : e.res[x][1] = i))>>,
     <<"resources() lists every register at its address",
        \A j \in DOMAIN c.regs : \E x \in DOMAIN e.res : e.res[x] = <<0 - j, e.reg[j][1], e.reg[j][2] - e.reg[j][1]>> >>,
     <<"resources() lists nothing twice", \A x, y \in DOMAIN e.res : x # y => e.res[x] # e.res[y]>>,
     <<"main_ram_address() is the address of the main RAM", e.main = IF c.ram = 0 THEN -1 ELSE e.rng[c.ram][1]>>,
     <<"linker script: the main ROM and the main RAM",
        e.ld = (IF c.rom = 0 THEN <<>> ELSE << <<"rom", e.rng[c.rom][1], e.rng[c.rom][2] - e.rng[c.rom][1]>> >>)
            \o (IF c.ram = 0 THEN <<>> ELSE << <<"ram", e.rng[c.ram][1], e.rng[c.ram][2] - e.rng[c.ram][1]>> >>)>>,
     <<"C header: address and size of every memory", \A i \in N : mem(i) => e.hmem[i] = <<e.rng[i][1], e.rng[i][2] - e.rng[i][1]>> >>,
     <<"C header: address and size of every register",
        \A j \in DOMAIN c.regs : e.hreg[j] = <<e.reg[j][1], e.reg[j][2] - e.reg[j][1]>> >> >>)
SocAt(s, a) == {i \in DOMAIN s : s[i].base <= a /\ a < s[i].base + Len(s[i].data)}
SocByte(s, a) == LET i == CHOOSE i \in SocAt(s, a) : TRUE IN s[i].data[a - s[i].base + 1]
SocPut(s, a, sel, w) ==
  [i \in DOMAIN s |-> IF T(s[i].ro) THEN s[i]
     ELSE [s[i] EXCEPT !.data = [k \in DOMAIN @ |->
             LET o == s[i].base + k - 1 - a IN
             IF o >= 0 /\ o < Len(w) /\ T(sel[o + 1]) /\ k <= s[i].lim THEN w[o + 1] ELSE @[k]]]]
IrqSet(c) == {i \in DOMAIN c.comps : T(c.comps[i].irq)}
IrqNo(c, i) == Cardinality({j \in 1..(i - 1) : T(c.comps[j].irq)})
SocPat(a) == (a * 7 + (a \div 256) * 13 + 3) % 256
SocNext(c, s, e) ==
  CASE e.k = "map" -> SocStart(c, e)
    [] e.k = "bus" -> IF T(e.we) THEN SocPut(s, e.a, e.sel, e.w) ELSE s
    [] OTHER -> s
SocStep(c, s, e) ==
  [s |-> SocNext(c, s, e),
   v |-> CASE e.k = "map" -> SocMap(c, e)
           [] e.k = "bus" -> Judge(<<
     <<"every transfer to a mapped address is acknowledged", T(e.ack)>>,
     <<"a read returns what was last written there through either bus",
        T(e.ack) /\ ~T(e.we) => \A o \in 0..3 : T(e.sel[o + 1]) => e.r[o + 1] = SocByte(s, e.a + o)>> >>)
           [] e.k = "irq" -> Judge(<<
     <<"interrupting peripherals have numbers of their own, in order",
        e.irqs = [n \in 1..Cardinality(IrqSet(c)) |-> <<n - 1, CHOOSE i \in IrqSet(c) : IrqNo(c, i) = n - 1>>]>>,
     <<"the processor sees each interrupt under its number",
        \A n \in 0..31 : T(e.ip[n + 1]) = (\E i \in IrqSet(c) : IrqNo(c, i) = n /\ T(e.line[i]))>> >>)
           \* the generated header, compiled and run on memory where address a holds SocPat(a)
           [] e.k = "cread" -> LET x == s[Len(c.mems) + e.reg] IN
                Judge(<< <<"C header: reads the register",
                           e.v = [o \in 1..Len(x.data) |-> SocPat(x.base + o - 1)]>> >>)
           [] e.k = "cwrite" -> LET x == s[Len(c.mems) + e.reg] IN
                Judge(<< <<"C header: writes the register, and nothing else",
                           e.changed = [o \in 1..Len(x.data) |-> <<x.base + o - 1, e.v[o]>>]>> >>)
           [] e.k = "cirq" ->          \* masks and pending are lists of 32 bits
                LET p == [n \in 1..32 |-> IF T(e.mask[n]) \/ n = e.no + 1 THEN 1 ELSE 0]
                    q == [n \in 1..32 |-> IF T(e.mask[n]) /\ n # e.no + 1 THEN 1 ELSE 0] IN
                Judge(<< <<"C header: interrupt number", e.no = IrqNo(c, e.i)>>,
                         <<"C header: interrupt pending", e.pend = e.pending[e.no + 1]>>,
                         <<"C header: interrupt enable", e.en = p>>,
                         <<"C header: interrupt disable", e.dis = q>> >>)
           [] OTHER -> "unknown event"]
(* How the address space is given out: next fit at the alignment asked for.   *)
SocAlloc(next, size) == LET p == SocRound(size) IN ((next + p - 1) \div p) * p
=============================================================================
