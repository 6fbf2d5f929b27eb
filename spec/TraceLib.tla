------------------------------- MODULE TraceLib -------------------------------
(* Trace validation with total verdicts. A contract module supplies            *)
(*   TInit(cfg)       the state a trace starts in                               *)
(*   TVerdict(s, e)   "" if observation e is allowed in s, else the clause      *)
(*   TApply(s, e)     the state after an allowed observation                    *)
(*   TEnd(s)          "" or the clause violated by stopping in s                *)
(* Every trace is an initial state; validation is linear in its length.         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS TInit(_), TVerdict(_, _), TApply(_, _), TEnd(_)

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, i, st

vars == <<t, i, st>>

Init == /\ t \in 1..Len(Traces)
        /\ i = 1
        /\ st = TInit(Traces[t].cfg)

Reject(clause) == PrintT("REJECT " \o ToString(Traces[t].id) \o " " \o ToString(i) \o " " \o clause)

Step == /\ i >= 1 /\ i <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[i]
               v == TVerdict(st, e)
           IN  IF v = "" THEN i' = i + 1 /\ st' = TApply(st, e)
                         ELSE Reject(v) /\ i' = 0 /\ st' = st
        /\ UNCHANGED t

Finish == /\ i = Len(Traces[t].ev) + 1
          /\ LET v == TEnd(st)
             IN IF v = "" THEN PrintT("ACCEPT " \o ToString(Traces[t].id) \o " 0 ")
                          ELSE Reject(v)
          /\ i' = 0
          /\ UNCHANGED <<t, st>>

Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
===============================================================================
