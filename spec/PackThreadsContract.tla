-------------------------- MODULE PackThreadsContract --------------------------
(* What every thread may be told by a packed database whose list of packs is loaded *)
(* (C19): exactly what it would be told alone. The machine PackThreads checks that    *)
(* the way gitdb does it grants this; recorded runs are stepped through this module.  *)
EXTENDS Integers, Sequences

\* cfg.objs[o] = [type, size, c]: what the packs hold, written independently; o = 0 is an absent id
PackThreadsContractInit(cfg) == [objs |-> cfg.objs, n |-> 0]

RightAnswer(s, e) ==
  IF e.o = 0 THEN IF e.how = "has" THEN e.out = "no" ELSE e.out = "BadObject"
  ELSE LET x == s.objs[e.o] IN
       CASE e.how = "has" -> e.out = "yes"
         [] e.how = "partial" -> e.out = "ok" /\ e.c = e.o
         [] e.how = "info" -> e.out = "ok" /\ e.type = x.type /\ e.size = x.size
         [] e.how \in {"stream", "rest"} -> e.out = "ok" /\ e.type = x.type /\ e.size = x.size /\ e.c = x.c
         [] OTHER -> FALSE

PackThreadsContractVerdict(s, e) ==
  IF e.op # "lookup" THEN "event"
  ELSE IF RightAnswer(s, e) THEN ""
  ELSE IF e.out = "hang" THEN "lookup-ends"
  ELSE IF e.o = 0 THEN "absent-reported-absent"
  ELSE IF e.out \in {"no", "BadObject"} THEN "present-not-missed"
  ELSE IF e.out \in {"yes", "ok"} THEN "right-object"
  ELSE "lookup-without-error"
PackThreadsContractApply(s, e) == [s EXCEPT !.n = @ + 1]
PackThreadsContractEnd(s) == ""
================================================================================
