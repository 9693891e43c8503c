------------------------------ MODULE TraceKit ------------------------------
(* Batch validation of recorded executions of the real gateware.             *)
(*                                                                           *)
(* The trace file holds one execution per line: its configuration `cfg` and  *)
(* its events `ev`.  A component specification supplies                      *)
(*    SInit(c)       the specification state before the first event          *)
(*    SStep(c,s,e)   what the specification does with event e in state s:    *)
(*                   a record [s |-> next state, v |-> verdict]              *)
(* A verdict is "ok" or the name of the violated clause.  Every execution is *)
(* a behaviour of the specification iff all of its events are consumed with  *)
(* verdict "ok"; the first bad event of each execution is reported.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS SInit(_), SStep(_, _, _)

Traces == ndJsonDeserialize(IOEnv.TRACEFILE)

VARIABLES tr, pos, st, verdict
tkvars == <<tr, pos, st, verdict>>

TInit == /\ tr \in 1..Len(Traces)
         /\ pos = 0
         /\ st = SInit(Traces[tr].cfg)
         /\ verdict = "ok"

Report(v, e) == PrintT("REJECT|" \o ToString(tr) \o "|" \o ToString(pos + 1) \o "|" \o v
                       \o "| event " \o ToString(e) \o " in state " \o ToString(st))

TNext == /\ verdict = "ok"
         /\ pos < Len(Traces[tr].ev)
         /\ LET e == Traces[tr].ev[pos + 1]
                r == SStep(Traces[tr].cfg, st, e)
            IN /\ st' = r.s
               /\ verdict' = r.v
               /\ (r.v # "ok" => Report(r.v, e))
         /\ pos' = pos + 1
         /\ tr' = tr

TSpec == TInit /\ [][TNext]_tkvars
=============================================================================
