------------------------------ MODULE Arbiter -------------------------------
(* amlib.stream.arbiter: StreamArbiter (A...) and StreamMultiplexer (M...).  *)
(* One step per clock cycle.  c.n producers; an event carries, per producer, *)
(*   v (valid, multi-bit allowed) and d (tuple of every other forward field),*)
(* the consumer's ready `rdy`, and the outputs ov, od, idle and r (the ready *)
(* each producer sees).                                                      *)
EXTENDS Kit

AInit(c) == [act |-> 1]

\* earliest added producer that currently offers data, 0 if none
RECURSIVE FirstFrom(_, _)
FirstFrom(v, k) == IF k > Len(v) THEN 0 ELSE IF v[k] # 0 THEN k ELSE FirstFrom(v, k + 1)
FirstValid(v) == FirstFrom(v, 1)

\* A burst (consecutive cycles of valid) is never interrupted.
ANext(c, s, v) == [act |-> IF v[s.act] # 0 \/ FirstValid(v) = 0 THEN s.act ELSE FirstValid(v)]

AStep(c, s, e) ==
  [s |-> ANext(c, s, e.v),
   v |-> Judge(<< <<"output valid is that of the selected producer", e.ov = e.v[s.act]>>,
                  <<"output fields are those of the selected producer", e.ov = 0 \/ e.od = e.d[s.act]>>,
                  <<"only the selected producer is granted", \A k \in 1..c.n : e.r[k] = (IF k = s.act THEN e.rdy ELSE 0)>>,
                  <<"idle", T(e.idle) = (FirstValid(e.v) = 0)>> >>)]

\* The multiplexer: no scheduling state at all.
MInit(c) == [x |-> 0]
MStep(c, s, e) ==
  LET k == FirstValid(e.v) IN
  [s |-> s,
   v |-> Judge(<< <<"output valid", e.ov = IF k = 0 THEN 0 ELSE e.v[k]>>,
                  <<"output fields", k = 0 \/ e.od = e.d[k]>>,
                  <<"ready only to the connected input", \A j \in 1..c.n : e.r[j] = (IF j = k THEN e.rdy ELSE 0)>> >>)]
=============================================================================
