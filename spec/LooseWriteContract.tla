-------------------------- MODULE LooseWriteContract ---------------------------
(* What a directory of loose objects may look like after every file-system step of   *)
(* the processes storing into it, and what their calls may report (C02).              *)
(*   cfg.n processes; cfg.nobj objects; cfg.pre: objects which are there at first       *)
(* Observations:                                                                       *)
(*   begin  p, what, o       process p begins a call                                    *)
(*   step   p, call, res     one file-system call of p: res go | err | short | crash     *)
(*          fs (if chg): everything in the directory behind it: objs = [o, st, ro],      *)
(*          tmps = creators of all other files                                          *)
(*   source p                the stream p stores from failed, or ended before its announced size *)
(*   result p, what, o, out  the call ended; id: right name; fds: descriptors left open   *)
EXTENDS Integers, Sequences, FiniteSets
\* (read-only at some time during the call: another process storing the same may just have replaced it)

Rng(q) == {q[j] : j \in 1..Len(q)}
LooseWriteInit(cfg) ==
  [n |-> cfg.n, vis |-> Rng(cfg.pre), ro |-> {}, tmps |-> {}, faulted |-> {}, unlinkfail |-> {}, dead |-> {},
   began |-> [p \in 1..cfg.n |-> {}], wasro |-> [p \in 1..cfg.n |-> {}]]

Objs(e) == {x.o : x \in Rng(e.objs)}
FsVerdict(s, e) ==
  IF ~e.chg THEN ""
  ELSE IF \E x \in Rng(e.objs) : x.st # "right" THEN "incomplete-object-visible"
  ELSE IF ~(s.vis \subseteq Objs(e)) THEN "visible-object-vanished"
  ELSE ""

LooseWriteVerdict(s, e) ==
  CASE e.op \in {"begin", "source"} -> ""
    [] e.op = "step" -> FsVerdict(s, e)
    [] e.op = "result" ->
         IF e.out = "hang" THEN "call-hangs"
         ELSE IF e.what = "store" THEN
           IF e.fds # 0 THEN "descriptor-left-open"
           ELSE IF e.p \in s.tmps /\ e.p \notin s.unlinkfail THEN "temporary-file-left"
           ELSE IF e.out = "ok" THEN
              IF ~e.id THEN "returned-wrong-id"
              ELSE IF e.o \notin s.vis THEN "returned-but-not-visible"
              ELSE IF e.o \notin s.ro \union s.wasro[e.p] THEN "returned-but-not-read-only" ELSE ""
           ELSE IF e.p \notin s.faulted THEN "store-fails-without-a-fault" ELSE ""
         ELSE \* readers: has, info, stream
           IF e.p \in s.faulted THEN ""
           ELSE IF e.fds # 0 THEN "descriptor-left-open"
           ELSE IF e.out = "found" THEN (IF e.o \in s.vis THEN (IF e.id THEN "" ELSE "reader-sees-wrong-object") ELSE "reader-sees-absent-object")
           ELSE IF e.out = "absent" THEN (IF e.o \in s.began[e.p] THEN "reader-misses-visible-object" ELSE "")
           ELSE "reader-raises-" \o e.out
    [] OTHER -> "unexpected-" \o e.op

LooseWriteApply(s, e) ==
  CASE e.op = "begin" -> [s EXCEPT !.began[e.p] = s.vis, !.wasro[e.p] = s.ro]
    [] e.op = "source" -> [s EXCEPT !.faulted = @ \union {e.p}]
    [] e.op = "step" ->
         LET r == {x.o : x \in {y \in Rng(e.objs) : y.ro}}
             a == IF e.chg THEN [s EXCEPT !.vis = Objs(e), !.ro = r, !.tmps = Rng(e.tmps), !.wasro = [p \in DOMAIN @ |-> @[p] \union r]] ELSE s
             b == IF e.res \in {"err", "short"} THEN [a EXCEPT !.faulted = @ \union {e.p}] ELSE a
         IN IF e.res = "err" /\ e.call = "unlink" THEN [b EXCEPT !.unlinkfail = @ \union {e.p}]
            ELSE IF e.res = "crash" THEN [b EXCEPT !.dead = @ \union {e.p}] ELSE b
    [] OTHER -> s
LooseWriteEnd(s) == ""
================================================================================
