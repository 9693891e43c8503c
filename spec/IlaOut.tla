------------------------------ MODULE IlaOut --------------------------------
(* Readout of the logic analyzer: SPI, stream, UART with the PC side.  A      *)
(* sample is the list of its bits, least significant first.  c: p samples     *)
(* before the trigger, depth, en (only enabled samples; the driver enables    *)
(* all samples before a trigger), w (bits per word sent)                      *)
EXTENDS Kit, TLC
Shove(q, v, n) == LET a == Append(q, v) IN IF Len(a) > n THEN SubSeq(a, Len(a) - n + 1, Len(a)) ELSE a
Mod(a, b) == a % b
Pad(b, w) == b \o Rep(0, w - Len(b))

(* ---- capture, one event per cycle: in en trig acc complete capturing ------ *)
(* acc: the trigger of this cycle started a capture                            *)
CapInit(c) == [prev |-> <<>>, busy |-> FALSE, pre |-> <<>>, post |-> <<>>, age |-> 0, ok |-> FALSE, mem |-> <<>>]
CapDone(s, e) == s.busy /\ T(e.complete)
CapNext(c, s, e) ==
    LET en   == ~c.en \/ T(e.en)
        busy == s.busy /\ ~CapDone(s, e)
        go   == T(e.trig) /\ T(e.acc)
        post == IF go THEN IF en THEN <<e.in>> ELSE <<>>
                ELSE IF busy /\ en /\ Len(s.post) < c.depth THEN Append(s.post, e.in) ELSE s.post
        now  == busy \/ go
    IN [prev |-> IF en THEN Shove(s.prev, e.in, c.p) ELSE s.prev, busy |-> now,
        pre |-> IF go THEN s.prev ELSE s.pre, post |-> post,
        age |-> IF now /\ ~go /\ c.p + Len(post) >= c.depth THEN s.age + 1 ELSE 0,
        ok |-> IF go THEN FALSE ELSE IF CapDone(s, e) THEN TRUE ELSE s.ok,
        mem |-> IF CapDone(s, e) THEN Take(s.pre \o s.post, c.depth) ELSE s.mem]
CapJudge(c, s, e) ==
   << <<"a capture without a trigger", T(e.acc) => T(e.trig)>>,
      <<"a trigger during a capture", T(e.acc) => (~s.busy \/ CapDone(s, e))>>,
      <<"capturing from the trigger to completion", T(e.capturing) <=> (s.busy /\ ~CapDone(s, e))>>,
      <<"complete only when all samples are there", CapDone(s, e) => Len(s.pre) + Len(s.post) >= c.depth>>,
      <<"complete in time", s.age <= c.p + 6>>,
      <<"complete stays until the next capture", (~s.busy /\ s.ok) => T(e.complete)>> >>

(* ---- stream: additionally wt rt (clock edges of the two domains), valid    *)
(* ready payload first last; c.cdc, c.lim (cycles without a word)             *)
StInit(c) == CapInit(c) @@ [q |-> <<>>, held |-> FALSE, dry |-> 0]
RECURSIVE Words(_, _, _, _)
Words(m, k, n, w) == IF k > n THEN <<>> ELSE <<[b |-> Pad(m[k], w), f |-> B(k = 1), l |-> B(k = n)]>> \o Words(m, k + 1, n, w)
CapFields == {"prev", "busy", "pre", "post", "age", "ok", "mem"}
StStep(c, s, e) ==
    LET cs   == [f \in CapFields |-> s[f]]
        cap  == IF T(e.wt) THEN CapNext(c, cs, e) ELSE cs
        done == T(e.wt) /\ CapDone(cs, e)
        take == T(e.rt) /\ T(e.valid) /\ T(e.ready)
        q1   == IF take /\ s.q # <<>> THEN Tail(s.q) ELSE s.q
        q2   == IF done THEN q1 \o Words(cap.mem, 1, c.depth, c.w) ELSE q1
        vis  == T(e.rt) /\ T(e.valid)
    IN [s |-> cap @@ [q |-> q2, held |-> IF T(e.rt) THEN T(e.valid) /\ ~T(e.ready) ELSE s.held,
                      dry |-> IF ~T(e.rt) THEN s.dry ELSE IF s.q # <<>> /\ ~T(e.valid) THEN s.dry + 1 ELSE 0],
        v |-> Judge((IF T(e.wt) THEN CapJudge(c, cs, e) ELSE <<>>) \o <<
          <<"an idle analyzer accepts the trigger", (T(e.wt) /\ T(e.trig) /\ ~s.busy /\ s.q = <<>>) => T(e.acc)>>,
          <<"a trigger while words are to be sent", (T(e.wt) /\ ~c.cdc /\ s.q # <<>>) => ~T(e.acc)>>,
          <<"a word without a sample", vis => s.q # <<>> >>,
          <<"sample in its place", (vis /\ s.q # <<>>) => Head(s.q).b = e.payload>>,
          <<"first mark", (vis /\ s.q # <<>>) => Head(s.q).f = e.first>>,
          <<"last mark", (vis /\ s.q # <<>>) => Head(s.q).l = e.last>>,
          <<"valid until taken", (T(e.rt) /\ s.held) => T(e.valid)>>,
          <<"the next word in time", s.dry <= c.lim>> >>)]

(* ---- SPI: ops "cyc" (capture cycle), "sel", "bit" (b sampled), "des" ------- *)
SpInit(c) == CapInit(c) @@ [n |-> 0, sel |-> FALSE]
SpStep(c, s, e) ==
    LET cs == [f \in CapFields |-> s[f]] IN
    IF e.op = "cyc"
    THEN [s |-> CapNext(c, cs, e) @@ [n |-> 0, sel |-> FALSE],
          v |-> Judge(CapJudge(c, cs, e) \o <<
                  <<"an idle analyzer accepts the trigger", (T(e.trig) /\ ~s.busy) => T(e.acc)>> >>)]
    ELSE LET k == s.n \div c.w  j == Mod(s.n, c.w)
             x == IF k < Len(s.mem) THEN Pad(s.mem[k + 1], c.w)[c.w - j] ELSE -1
         IN [s |-> [s EXCEPT !.n = IF e.op = "bit" THEN s.n + 1 ELSE 0, !.sel = e.op # "des"],
             v |-> Judge(<< <<"bits come within a selection", e.op = "bit" => s.sel>>,
                            <<"samples from the first on, MSB first", (e.op = "bit" /\ x >= 0) => e.b = x>> >>)]

(* ---- UART and PC side: ops "cyc", "read" (samples: per sample the bits of   *)
(* each signal), "vcd" (one sample of the dump: k, time t in ns, bits of each   *)
(* signal; ck = clock level there), "params" (what survives pickling)          *)
(* c.ws: signal widths; c.pn/c.pd: sample period in ns                          *)
UaInit(c) == CapInit(c)
RECURSIVE Split(_, _)
Split(b, ws) == IF ws = <<>> THEN <<>> ELSE <<Take(b, ws[1])>> \o Split(Drop(b, ws[1]), Tail(ws))
Abs(x) == IF x < 0 THEN -x ELSE x
UaStep(c, s, e) ==
    CASE e.op = "cyc" -> [s |-> CapNext(c, s, e),
          v |-> Judge(CapJudge(c, s, e) \o << <<"an idle analyzer accepts the trigger", (T(e.trig) /\ e.free = 1) => T(e.acc)>> >>)]
      [] e.op = "read" -> [s |-> s, v |-> Judge(<<
            <<"as many samples as captured", Len(e.samples) = c.depth>>,
            <<"each sample split into its signals", s.ok /\ \A k \in 1..Min2(Len(e.samples), Len(s.mem)) : e.samples[k] = Split(s.mem[k], c.ws)>> >>)]
      [] e.op = "vcd" -> [s |-> s, v |-> Judge(<<
            <<"time of the sample in the dump", 2 * Abs(e.t * c.pd - e.k * c.pn) <= c.pd>>,
            <<"signal values in the dump", e.k < Len(s.mem) /\ e.vals = Split(s.mem[e.k + 1], c.ws)>> >>)]
      [] e.op = "before" -> [s |-> s, v |-> Judge(<<
            <<"each sample holds until the next", e.k < Len(s.mem) /\ e.vals = Split(s.mem[e.k + 1], c.ws)>> >>)]
      [] e.op = "view" -> [s |-> s, v |-> Judge(<<
            <<"the view shows the clock, if any, and the signals in order", e.names = [i \in 1..e.n |-> i]>> >>)]
      [] e.op = "changes" -> [s |-> s, v |-> Judge(<< <<"signals change at sample times only", e.only = 1>> >>)]
      [] e.op = "clks" -> [s |-> s, v |-> Judge(<< <<"two clock changes per sample period", e.n \in {2 * c.depth - 2, 2 * c.depth - 1, 2 * c.depth} \cup (IF c.depth = 1 THEN {0, 1} ELSE {})>> >>)]
      [] e.op = "clk" -> [s |-> s, v |-> Judge(<<
            <<"clock rises with each sample and falls half a period later", 4 * Abs(2 * e.t * c.pd - e.h * c.pn) <= 4 * c.pd /\ e.lv = 1 - Mod(e.h, 2)>> >>)]
      [] OTHER -> [s |-> s, v |-> Judge(<< <<"parameters survive pickling", e.same = 1>> >>)]
=============================================================================
