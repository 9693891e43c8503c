-------------------------------- MODULE Gen ---------------------------------
(* amlib.stream.generator, one step per clock cycle.                         *)
(*  G...  ConstantStreamGenerator   Z...  StreamSerializer                   *)
(*  K...  PacketListStreamer                                                 *)
EXTENDS Kit

-----------------------------------------------------------------------------
(* ConstantStreamGenerator.  c.words: the ROM; c.nbytes: length of the data  *)
(* in bytes; c.bpw: bytes per word; c.vw: width of valid (1 or bpw);         *)
(* c.lastb: bytes in the last word; c.hasmax.  Event: start sp ml rdy and    *)
(* v f l p done ol.                                                          *)
GInit(c) == [ph |-> "idle", pos |-> 0, sent |-> 0, first |-> TRUE]

GAtEnd(c, s)    == s.pos = Len(c.words) - 1
GAtMax(c, s, e) == T(c.hasmax) /\ s.sent + c.bpw >= e.ml
GLast(c, s, e)  == GAtEnd(c, s) \/ GAtMax(c, s, e)
GBytes(c, s, e) == Min2(IF GAtEnd(c, s) THEN c.lastb ELSE c.bpw,
                        IF GAtMax(c, s, e) THEN e.ml - s.sent ELSE c.bpw)
GValid(c, s, e) == IF s.ph # "run" THEN 0
                   ELSE IF c.vw = 1 THEN 1 ELSE Pow2(GBytes(c, s, e)) - 1
GNext(c, s, e) ==
  CASE s.ph = "idle" -> IF T(e.start) /\ (T(c.hasmax) => e.ml > 0)
                        THEN [ph |-> "run", pos |-> Min2(e.sp, Len(c.words) - 1), sent |-> 0, first |-> TRUE]
                        ELSE s
    [] s.ph = "run"  -> IF ~T(e.rdy) THEN s
                        ELSE IF GLast(c, s, e) THEN [s EXCEPT !.ph = "done"]
                        ELSE [s EXCEPT !.pos = @ + 1, !.sent = @ + c.bpw, !.first = FALSE]
    [] s.ph = "done" -> [s EXCEPT !.ph = "idle"]
GStep(c, s, e) ==
  [s |-> GNext(c, s, e),
   v |-> Judge(<< <<"valid (with the byte lanes in use)", e.v = GValid(c, s, e)>>,
                  <<"payload", s.ph # "run" \/ e.p = c.words[s.pos + 1]>>,
                  <<"first", T(e.f) = (s.ph = "run" /\ s.first)>>,
                  <<"last", T(e.l) = (s.ph = "run" /\ GLast(c, s, e))>>,
                  <<"done strobe", T(e.done) = (s.ph = "done")>>,
                  <<"output_length", ~T(c.hasmax) \/ e.ol = Min2(e.ml, c.nbytes)>> >>)]

-----------------------------------------------------------------------------
(* StreamSerializer.  c.n words, c.hasmax.  Event: start d[] ml rdy, outputs *)
ZInit(c) == [ph |-> "idle", pos |-> 0]
ZLen(c, e) == IF T(c.hasmax) THEN Min2(c.n, e.ml) ELSE c.n
ZNext(c, s, e) ==
  CASE s.ph = "idle" -> IF T(e.start) /\ ZLen(c, e) > 0 THEN [ph |-> "run", pos |-> 0] ELSE s
    [] s.ph = "run"  -> IF ~T(e.rdy) THEN s
                        ELSE IF s.pos + 1 >= ZLen(c, e) THEN [s EXCEPT !.ph = "done"]
                        ELSE [s EXCEPT !.pos = @ + 1]
    [] s.ph = "done" -> [s EXCEPT !.ph = "idle"]
ZStep(c, s, e) ==
  [s |-> ZNext(c, s, e),
   v |-> Judge(<< <<"valid", T(e.v) = (s.ph = "run")>>,
                  <<"payload", s.ph # "run" \/ e.p = e.d[s.pos + 1]>>,
                  <<"first", T(e.f) = (s.ph = "run" /\ s.pos = 0)>>,
                  <<"last", T(e.l) = (s.ph = "run" /\ s.pos + 1 >= ZLen(c, e))>>,
                  <<"done strobe", T(e.done) = (s.ph = "done")>> >>)]

-----------------------------------------------------------------------------
(* PacketListStreamer, at the level of words handed over.  c.packets: list   *)
(* of non-empty lists of words.  How long the gap between packets is, is not *)
(* specified - but it is bounded by c.gap cycles.                            *)
RECURSIVE KFlat(_)
KFlat(ps) == IF ps = <<>> THEN <<>>
             ELSE [j \in 1..Len(Head(ps)) |-> <<Head(ps)[j], B(j = 1), B(j = Len(Head(ps)))>>] \o KFlat(Tail(ps))
KInit(c) == [busy |-> FALSE, pos |-> 0, held |-> FALSE, idle |-> 0, all |-> KFlat(c.packets)]
KStep(c, s, e) ==
  LET n     == Len(s.all)
      avail == s.busy /\ s.pos < n
      hand  == T(e.v) /\ T(e.rdy)
      gap   == IF s.busy /\ ~T(e.v) /\ ~T(e.done) THEN s.idle + 1 ELSE 0
  IN [s |-> [all  |-> s.all,
             busy |-> IF T(e.done) THEN FALSE ELSE s.busy \/ T(e.start),
             pos  |-> IF T(e.done) \/ ~s.busy THEN 0 ELSE IF hand THEN s.pos + 1 ELSE s.pos,
             held |-> T(e.v) /\ ~T(e.rdy),
             idle |-> gap],
      v |-> Judge(<< <<"data is offered only while streaming", T(e.v) => avail>>,
                     <<"an offered word is not withdrawn", s.held => T(e.v)>>,
                     <<"word, first and last", T(e.v) /\ avail => <<e.p, e.f, e.l>> = s.all[s.pos + 1]>>,
                     <<"done exactly after the last word", T(e.done) => s.busy /\ s.pos = n /\ ~T(e.v)>>,
                     <<"makes progress", gap <= c.gap>> >>)]
=============================================================================
