--------------------------- MODULE LockFileContract ----------------------------
(* What a file and its lock file may look like after every file-system step of the    *)
(* holders of LockedFD instances, and what their calls may report (C16).               *)
(* Contents are numbers (0: there is no file; cfg.empty: nothing in it). Instances        *)
(* 1..cfg.n, instance p used by process cfg.proc[p]; a lock owned by cfg.n+1 is foreign.   *)
(* Observations:                                                                       *)
(*   begin  p, what          the process begins a call on instance p:                     *)
(*                           openw | openr | write | read | commit | rollback | drop       *)
(*   step   p, call, res     one file-system call of it: res go | err | short | crash       *)
(*          cont, lock       the content of the file and the owner of the lock behind it    *)
(*   result p, what, out, c  the call ended: ok | error | ...; c: for write, all that was    *)
(*                           accepted so far; for read, what was read                       *)
(*          fds              descriptors more than before the instance was made              *)
EXTENDS Integers, Sequences, FiniteSets

Inst(s) == DOMAIN s.mode
\* mode: new, w / r (holding), done; began: the call which is going on
LockFileInit(cfg) ==
  [mode |-> [p \in 1..cfg.n |-> "new"], doing |-> [p \in 1..cfg.n |-> ""], wrote |-> [p \in 1..cfg.n |-> cfg.empty],
   \* since the call began: contents of the file, owners of the lock, whether a call failed, a removal failed, was done on a read-opened file
   conts |-> [p \in 1..cfg.n |-> {}], locks |-> [p \in 1..cfg.n |-> {}], fault |-> [p \in 1..cfg.n |-> FALSE],
   stuck |-> [p \in 1..cfg.n |-> FALSE],
   proc |-> cfg.proc, cont |-> cfg.cont, lock |-> cfg.lock]

Holding(s, p) == s.mode[p] \in {"w", "r"}
Ending == {"commit", "rollback", "drop"}

StepVerdict(s, e) ==
  LET p == e.p IN
  IF e.cont # s.cont /\ (p = 0 \/ s.mode[p] # "w" \/ s.doing[p] # "commit") THEN "content-changed-without-commit"
  ELSE IF e.cont # s.cont /\ s.lock # p THEN "content-changed-without-the-lock"
  ELSE IF e.cont # s.cont /\ e.cont # s.wrote[p] THEN "content-not-what-the-holder-wrote"
  ELSE IF e.lock # s.lock /\ s.lock # 0 /\ s.lock # p THEN "lock-of-somebody-else-taken"
  ELSE IF e.lock # s.lock /\ e.lock \notin {0, p} THEN "lock-appears-from-nowhere"
  ELSE IF e.lock # s.lock /\ e.lock = p /\ s.doing[p] \notin {"openw", "openr"} THEN "lock-taken-without-open"
  ELSE IF e.lock # s.lock /\ s.lock = p /\ Holding(s, p) /\ s.doing[p] \notin Ending THEN "lock-released-while-held"
  ELSE ""

OpenVerdict(s, e) ==
  LET p == e.p IN
  IF e.out = "ok" THEN
     IF Holding(s, p) THEN "opened-twice"
     ELSE IF s.lock # p THEN "opened-without-the-lock"
     ELSE IF \E q \in Inst(s) : q # p /\ Holding(s, q) /\ s.doing[q] \notin Ending THEN "two-holders" ELSE ""
  ELSE IF s.mode[p] # "new" THEN ""       \* may only be opened once
  ELSE IF s.lock = p /\ ~s.stuck[p] THEN "failed-open-leaves-lock"
  ELSE IF e.fds # 0 THEN "failed-open-leaves-descriptor"
  ELSE IF ~s.fault[p] /\ s.locks[p] \subseteq {0, p} /\ (e.what = "openw" \/ 0 \notin s.conts[p]) THEN "open-fails-though-free" ELSE ""

EndVerdict(s, e) ==
  LET p == e.p IN
  IF ~Holding(s, p) THEN (IF e.fds # 0 /\ e.what = "drop" THEN "descriptor-left-open" ELSE "")
  ELSE IF s.lock = p /\ ~s.stuck[p] THEN "lock-left-by-" \o e.what
  ELSE IF e.fds # 0 THEN "descriptor-left-open"
  ELSE IF e.what = "commit" /\ e.out = "ok" /\ s.mode[p] = "w" /\ s.wrote[p] \notin s.conts[p] THEN "commit-without-effect"
  ELSE IF e.out # "ok" /\ ~s.fault[p] THEN e.what \o "-fails-without-a-fault" ELSE ""

LockFileVerdict(s, e) ==
  CASE e.op = "begin" -> ""
    [] e.op = "step" -> StepVerdict(s, e)
    [] e.op = "result" ->
         IF e.out = "hang" THEN "call-hangs"
         ELSE IF e.what \in {"openw", "openr"} THEN OpenVerdict(s, e)
         ELSE IF e.what \in Ending THEN EndVerdict(s, e)
         ELSE IF e.what = "read" THEN
            IF s.mode[e.p] # "r" THEN ""
            ELSE IF e.out = "ok" THEN (IF e.c = s.cont \/ s.fault[e.p] THEN "" ELSE "reads-other-than-the-content")
            ELSE IF s.fault[e.p] THEN "" ELSE "read-fails-without-a-fault"
         ELSE IF e.out # "ok" /\ s.mode[e.p] = "w" /\ ~s.fault[e.p] THEN "write-fails-without-a-fault" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

LockFileApply(s, e) ==
  LET p == e.p IN
  CASE e.op = "begin" -> [s EXCEPT !.doing[p] = e.what, !.conts[p] = {s.cont}, !.locks[p] = {s.lock}, !.fault[p] = FALSE]
    [] e.op = "step" ->
         LET a == [s EXCEPT !.cont = e.cont, !.lock = e.lock,
                            !.conts = [q \in DOMAIN @ |-> @[q] \union {e.cont}], !.locks = [q \in DOMAIN @ |-> @[q] \union {e.lock}]]
         IN IF p = 0 THEN a
            ELSE [a EXCEPT !.fault[p] = @ \/ e.res \in {"err", "short"}, !.stuck[p] = @ \/ (e.res = "err" /\ e.call = "unlink"),
                           \* all instances of a process die with it
                           !.mode = [q \in DOMAIN @ |-> IF e.res = "crash" /\ s.proc[q] = s.proc[p] THEN "dead" ELSE @[q]]]
    [] e.op = "result" ->
         LET a == [s EXCEPT !.doing[p] = ""]
         IN IF e.what \in {"openw", "openr"} THEN
               (IF s.mode[p] # "new" THEN a ELSE [a EXCEPT !.mode[p] = IF e.out = "ok" THEN (IF e.what = "openw" THEN "w" ELSE "r") ELSE "done"])
            ELSE IF e.what \in Ending THEN (IF Holding(s, p) THEN [a EXCEPT !.mode[p] = "done"] ELSE a)
            ELSE IF e.what = "write" THEN (IF s.mode[p] = "w" THEN [a EXCEPT !.wrote[p] = e.c] ELSE a)
            ELSE a
    [] OTHER -> s
LockFileEnd(s) == ""
================================================================================
