-------------------------------- MODULE Spi ---------------------------------
(* SPI: word-oriented device, controller, command/register interface, bus    *)
(* multiplexer and the serial LED array driver built on the controller.      *)
EXTENDS Kit
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

(* ---- io.spi.SPIDeviceInterface, one event per clock cycle ---------------- *)
(* c: cdc (input synchronizer stages 0/2), pol, pha, msb, csh, w              *)
(* inputs cs sck sdi wo; outputs sdo wi wa wc                                 *)
(* words are numbers, or (above 30 bits) sequences of bits, most significant first *)
Wide(c)      == c.w > 30
Zero(c)      == IF Wide(c) THEN Rep(0, c.w) ELSE 0
Flip(q)      == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Order(c, v)  == IF Wide(c) THEN IF c.msb = 1 THEN v ELSE Flip(v)
                ELSE IF c.msb = 1 THEN BitsMSB(v, c.w) ELSE BitsLSB(v, c.w)
Word(c, q)   == IF Wide(c) THEN IF c.msb = 1 THEN q ELSE Flip(q)
                ELSE IF c.msb = 1 THEN FromMSB(q) ELSE FromLSB(q)
DInit(c) == [cs |-> Rep(0, c.cdc), ck |-> Rep(0, c.cdc), di |-> Rep(0, c.cdc),
             psel |-> 0, pck |-> 0, got |-> <<>>, full |-> <<>>, tx |-> Rep(0, c.w),
             sdo |-> 0, wi |-> Zero(c), wa |-> 0, wc |-> 0]
Sync(p, x)  == IF p = <<>> THEN x ELSE p[Len(p)]
Push(p, x)  == IF p = <<>> THEN p ELSE <<x>> \o SubSeq(p, 1, Len(p) - 1)
(* after the last bit of a word has gone out it is repeated *)
Rest(tx)    == IF Len(tx) = 1 THEN tx ELSE Tail(tx)
DNext(c, s, e) ==
  LET cs == Sync(s.cs, e.cs)  ck == (Sync(s.ck, e.sck) + c.pol) % 2  di == Sync(s.di, e.sdi)
      sel == (cs + c.csh) % 2
      lead == ck = 1 /\ s.pck = 0     trail == ck = 0 /\ s.pck = 1
      smp == IF c.pha = 1 THEN trail ELSE lead
      shf == IF c.pha = 1 THEN lead ELSE trail
      put == (sel = 1 /\ shf) \/ (c.pha = 0 /\ sel = 1 /\ s.psel = 0)
      got == IF sel = 1 /\ smp THEN Append(s.got, di) ELSE s.got
      done == sel = 1 /\ smp /\ Len(got) = c.w
  IN [cs |-> Push(s.cs, e.cs), ck |-> Push(s.ck, e.sck), di |-> Push(s.di, e.sdi),
      psel |-> sel, pck |-> ck,
      got |-> IF sel = 0 \/ done THEN <<>> ELSE got,
      full |-> IF done THEN got ELSE s.full,
      wa |-> B(done), wc |-> s.wa,
      wi |-> IF s.wa = 1 THEN Word(c, s.full) ELSE s.wi,
      tx |-> IF sel = 0 \/ done THEN Order(c, e.wo) ELSE IF put THEN Rest(s.tx) ELSE s.tx,
      sdo |-> IF sel = 0 THEN 0 ELSE IF put THEN s.tx[1] ELSE s.sdo]
DStep(c, s, e) ==
  [s |-> DNext(c, s, e),
   v |-> Judge(<< <<"word complete strobe", e.wc = s.wc>>, <<"word accepted strobe", e.wa = s.wa>>,
                  <<"received word", e.wi = s.wi>>, <<"serial data out", e.sdo = s.sdo>> >>)]

(* ---- io.spi.SPIControllerInterface seen on the bus ----------------------- *)
(* One event per change of any signal: dt = cycles since the previous event;  *)
(* levels cs sck sdo sdi (sdi driven by the environment), st = start strobe,  *)
(* wc = word complete, wi = word received, wo = word_out.                     *)
(* c: pol, pha, msb, csh, w, div, cdc                                         *)
CInit(c) == [busy |-> 0, sel |-> 0, ck |-> 0, sdo |-> 0, sdi |-> 0,
             out |-> <<>>, in |-> <<>>, t |-> 0, el |-> -1, wo |-> Zero(c), ac |-> 0, dn |-> 0]
CStep(c, s, e) ==
  LET sel == (e.cs + c.csh) % 2   ck == (e.sck + c.pol) % 2
      on == sel = 1 /\ s.sel = 0     off == sel = 0 /\ s.sel = 1
      lead == ck = 1 /\ s.ck = 0     trail == ck = 0 /\ s.ck = 1
      smp == s.sel = 1 /\ (IF c.pha = 1 THEN trail ELSE lead)
      acc == e.st = 1 /\ s.busy = 0
      \* the bit counts if stable around the edge: its level before the edge
      out == IF on THEN <<>> ELSE IF smp THEN Append(s.out, s.sdo) ELSE s.out
      in  == IF on THEN <<>> ELSE IF smp THEN Append(s.in, s.sdi) ELSE s.in
      busy2 == IF e.wc = 1 THEN 0 ELSE IF acc THEN 1 ELSE s.busy
      t2 == IF acc THEN 0 ELSE s.t + e.dt
      edge == lead \/ trail
      el2 == IF on THEN -1 ELSE IF edge THEN 0 ELSE IF s.el < 0 THEN -1 ELSE s.el + e.dt
  IN [s |-> [busy |-> busy2, sel |-> sel, ck |-> ck, sdo |-> e.sdo, sdi |-> e.sdi, out |-> out, in |-> in,
             t |-> t2, el |-> el2, wo |-> IF acc THEN e.wo ELSE s.wo, ac |-> IF acc THEN 0 ELSE s.ac + e.wa, dn |-> e.wc],
      v |-> Judge(<< <<"chip select without a transfer", sel = 1 => s.busy = 1>>,
                     <<"clock outside of chip select", sel = 0 => ck = 0>>,
                     <<"chip select and leading clock edge at once", (on /\ c.pha = 0) => ck = 0>>,
                     <<"more clocks than bits", Len(out) <= c.w>>,
                     <<"clock phase too short", (edge /\ s.sel = 1 /\ sel = 1 /\ s.el >= 0) => s.el + e.dt = c.div \div 2>>,
                     <<"data changes at the sampling edge", smp => (e.sdo = s.sdo \/ (off /\ Len(out) = c.w))>>,
                     <<"one word complete strobe per transfer", e.wc = 1 => s.busy = 1 /\ s.dn = 0>>,
                     <<"deselected before the word is complete", off => (Len(out) = c.w /\ s.dn = 1)>>,
                     <<"clocks per word", e.wc = 1 => (Len(s.out) = c.w)>>,
                     <<"word sent", e.wc = 1 => Word(c, s.out) = s.wo>>,
                     <<"one accepted strobe before the complete strobe", e.wc = 1 => s.ac = 1 /\ e.wa = 0>>,
                     <<"word received", e.wc = 1 => e.wi = Word(c, s.in)>>,
                     <<"transfer takes too long", busy2 = 1 => t2 <= c.div * (c.w + 3) + 16>> >>)]

(* ---- SPICommandInterface / SPIRegisterInterface -------------------------- *)
(* Sample on falling clock edges, MSB first, active high chip select.         *)
(* One event per bus operation: op "sel", "des", "bit" (rising and falling    *)
(* edge with sdi = m, sdo = level just before the falling edge).  Observed    *)
(* during the operation: cr/wc strobe counts, cmd/wd = command / word_received*)
(* (bits) at its end; idle, stall at its end; ws = word_to_send supplied      *)
(* (bits).  c: n (command bits), w (word bits)                                *)
MInit(c) == [ph |-> "stall", cmd |-> <<>>, sh |-> <<>>, out |-> <<>>, cnt |-> 0]
MNext(c, s, e) ==
  CASE e.op = "des" -> [s EXCEPT !.ph = "idle"]
    [] e.op = "sel" -> IF s.ph = "idle" THEN [ph |-> "cmd", cmd |-> <<>>, sh |-> <<>>, out |-> <<>>, cnt |-> 0] ELSE s
    [] s.ph = "cmd" -> IF Len(s.sh) + 1 = c.n
                       THEN [s EXCEPT !.ph = "data", !.cmd = Append(s.sh, e.m), !.sh = <<>>, !.out = e.ws]
                       ELSE [s EXCEPT !.sh = Append(@, e.m)]
    [] s.ph = "data" -> IF Len(s.sh) + 1 = c.w THEN [s EXCEPT !.ph = "stall", !.sh = Append(@, e.m)]
                        ELSE [s EXCEPT !.sh = Append(@, e.m)]
    [] OTHER -> s
MCmdNow(s, t)  == s.ph = "cmd" /\ t.ph = "data"
MWordNow(s, t) == s.ph = "data" /\ t.ph = "stall"
MSdo(s) == s.out[Len(s.sh) + 1]
MStep(c, s, e) ==
  LET t == MNext(c, s, e)
  IN [s |-> t,
      v |-> Judge(<< <<"command strobe", e.cr = B(MCmdNow(s, t))>>,
                     <<"command", MCmdNow(s, t) => e.cmd = t.cmd>>,
                     <<"word strobe", e.wc = B(MWordNow(s, t))>>,
                     <<"word received", MWordNow(s, t) => e.wd = t.sh>>,
                     <<"bit sent", (e.op = "bit" /\ s.ph = "data") => e.sdo = MSdo(s)>>,
                     <<"idle flag", e.idle = B(t.ph = "idle")>>,
                     <<"stalled flag", e.stall = B(t.ph = "stall")>> >>)]

(* Registers.  c: n = address bits + 1, w, def (bits), regs: <<[a, kind, size, val]>> with   *)
(* kind "mem" (readable, writable, holds val), "const" (reads val), "in" (reads the input),  *)
(* "wo" (writes only), and e.inp[i] current input of register i, e.val[i] = value bits (mem) *)
(* at the end, e.rs[i], e.wsx[i] = strobe counts (-1: not fitted), e.wv[i] = value with the  *)
(* write strobe.  All values are MSB first bit sequences.                                    *)
Fit(q, w) == IF Len(q) >= w THEN SubSeq(q, Len(q) - w + 1, Len(q)) ELSE Rep(0, w - Len(q)) \o q
RInit(c) == [m |-> MInit(c), mem |-> [i \in 1..Len(c.regs) |-> c.regs[i].val]]
RIndex(c, a) == LET S == {i \in 1..Len(c.regs) : c.regs[i].a = a} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
RRead(c, s, e, a) ==
  LET i == RIndex(c, a)
  IN IF i = 0 THEN c.def
     ELSE CASE c.regs[i].kind = "mem" -> Fit(s.mem[i], c.w)
            [] c.regs[i].kind = "const" -> Fit(c.regs[i].val, c.w)
            [] c.regs[i].kind = "in" -> Fit(e.inp[i], c.w)
            [] OTHER -> c.def
RStep(c, s, e) ==
  LET m1 == MNext(c, s.m, e)
      cmdnow == MCmdNow(s.m, m1)
      m2 == IF cmdnow THEN [m1 EXCEPT !.out = RRead(c, s, e, Tail(m1.cmd))] ELSE m1
      done == MWordNow(s.m, m1)
      i == IF done THEN RIndex(c, Tail(m1.cmd)) ELSE 0
      wr == done /\ m1.cmd[1] = 1
      mem == IF wr /\ i > 0 /\ c.regs[i].kind = "mem" THEN [s.mem EXCEPT ![i] = Fit(m1.sh, c.regs[i].size)] ELSE s.mem
      R == 1..Len(c.regs)
  IN [s |-> [m |-> m2, mem |-> mem],
      v |-> Judge(<< <<"bit sent", (e.op = "bit" /\ s.m.ph = "data") => e.sdo = MSdo(s.m)>>,
                     <<"write strobe", \A k \in R : e.wsx[k] >= 0 => e.wsx[k] = B(wr /\ i = k)>>,
                     <<"read strobe", \A k \in R : e.rs[k] >= 0 => e.rs[k] = B(done /\ ~wr /\ i = k)>>,
                     <<"written value", \A k \in R : (wr /\ i = k /\ e.wsx[k] >= 0 /\ c.regs[k].kind # "mem") => e.wv[k] = Fit(m1.sh, c.regs[k].size)>>,
                     <<"register value", \A k \in R : c.regs[k].kind = "mem" => e.val[k] = mem[k]>>,
                     <<"idle flag", e.idle = B(m2.ph = "idle")>>,
                     <<"stalled flag", e.stall = B(m2.ph = "stall")>> >>)]

(* ---- SPIMultiplexer and connect_to_resource ------------------------------ *)
(* combinational: cs/sdo of each bus, shared lines; at most one bus selected  *)
XInit(c) == 0
XStep(c, s, e) ==
  LET S == {i \in 1..Len(e.cs) : e.cs[i] = 1}
      x == IF S = {} THEN 0 ELSE e.sdo[CHOOSE i \in S : TRUE]
  IN [s |-> 0,
      v |-> Judge(<< <<"shared data out", e.so = x>>,
                     <<"clock to every bus", \A i \in 1..Len(e.cs) : e.ck[i] = e.sck>>,
                     <<"data to every bus", \A i \in 1..Len(e.cs) : e.di[i] = e.sdi>> >>)]
(* c: side "ctl" / "dev", inv = chip select polarity differs from the active  *)
(* high pin.  pins copi cipo clk pcs, bus sck sdi sdo cs                      *)
PStep(c, s, e) ==
  [s |-> 0,
   v |-> IF c.side = "ctl"
         THEN Judge(<< <<"copi", e.copi = e.sdo>>, <<"cipo", e.sdi = e.cipo>>, <<"clk", e.clk = e.sck>>, <<"cs", e.pcs = (e.cs + c.inv) % 2>> >>)
         ELSE Judge(<< <<"copi", e.sdi = e.copi>>, <<"cipo", e.cipo = e.sdo>>, <<"clk", e.sck = e.clk>>, <<"cs", e.cs = (e.pcs + c.inv) % 2>> >>)]

(* ---- io.max7219.SerialLEDArray ------------------------------------------- *)
(* Events: "upd" (digits d taken by valid_in), "beg" / "end" of a chip select *)
(* frame with t = cycles since reset (beg) and the bits clocked in (end).     *)
(* c: mods, init = <<<<register, data>>>>, delay, slack                       *)
LInit(c) == [k |-> 0, cur |-> Rep(0, 8 * c.mods), cand |-> {Rep(0, 8 * c.mods)}, use |-> {}, open |-> 0]
(* all modules: the word for the last module in the chain goes first          *)
Chain(c, f(_)) == Cat([j \in 1..c.mods |-> f(c.mods + 1 - j)])
LFrame(c, k, d) ==
  IF k < Len(c.init)
  THEN Chain(c, LAMBDA m : BitsMSB(c.init[k + 1][1], 8) \o BitsMSB(c.init[k + 1][2], 8))
  ELSE LET g == (k - Len(c.init)) % 8
       IN Chain(c, LAMBDA m : BitsMSB(g + 1, 8) \o BitsMSB(d[8 * (m - 1) + g + 1], 8))
LStep(c, s, e) ==
  CASE e.op = "upd" -> [s |-> [s EXCEPT !.cur = e.d, !.cand = @ \cup {e.d}], v |-> "ok"]
    [] e.op = "beg" -> [s |-> [s EXCEPT !.use = s.cand, !.open = 1],
                        v |-> Judge(<< <<"frame before the initial delay is over", s.k = 0 => e.t >= c.delay>>,
                                       <<"first frame too late", s.k = 0 => e.t <= c.delay + c.slack>>,
                                       <<"gap between frames too long", s.k > 0 => e.gap <= c.slack>> >>)]
    [] e.op = "end" -> [s |-> [s EXCEPT !.k = @ + 1, !.cand = {s.cur}, !.open = 0],
                        v |-> Judge(<< <<"frame length", Len(e.bits) = 16 * c.mods>>,
                                       <<IF s.k < Len(c.init) THEN "initialization command" ELSE "digit frame",
                                         \E d \in s.use : e.bits = LFrame(c, s.k, d)>> >>)]
    [] OTHER -> [s |-> s, v |-> "unknown event"]
=============================================================================
