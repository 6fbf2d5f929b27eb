-------------------------- MODULE ReadFaultContract ---------------------------
(* Databases which are read while system calls fail, their directory is gone for a   *)
(* while or others change it (C24).                                                  *)
(*   cfg.has    the objects which are there at first                                  *)
(*   cfg.kind   "packed" | "loose" | "git" | "ref"                                     *)
(* A state: has: what is there; ever: what has ever been; exact: the database has to    *)
(* know exactly what is there (it has been opened or refreshed without a failure, and    *)
(* neither was anything changed since nor an answer given under a failure).               *)
(* fault of an operation: "" none, "call" a system call failed, "gone" no directory.       *)
EXTENDS Integers, Sequences, FiniteSets

Set(q) == {q[k] : k \in 1..Len(q)}
ReadFaultInit(cfg) == [has |-> Set(cfg.has), ever |-> Set(cfg.has), exact |-> TRUE, kind |-> cfg.kind]

ReadFaultVerdict(s, e) ==
  CASE e.op \in {"change", "gone", "back"} -> ""
    [] e.op \in {"q", "ids", "refresh", "end"} /\ e.out = "hang" -> "hangs"
    [] e.op = "q" ->       \* v: "yes" it is there and what was told about it is right; "no"; "wrong"
         IF e.out = "ok" /\ e.v = "wrong" THEN e.how \o "-tells-wrong"
         ELSE IF e.out = "ok" /\ e.v = "yes" /\ e.o \notin s.ever THEN e.how \o "-invents"
         ELSE IF e.fault # "" \/ ~s.exact THEN ""
         ELSE IF e.o \in s.has THEN
              IF e.out # "ok" THEN e.how \o "-fails-later-" \o e.out ELSE IF e.v # "yes" THEN e.how \o "-misses-later" ELSE ""
         ELSE IF e.out = "ok" /\ e.v = "yes" THEN e.how \o "-finds-what-is-gone"
         ELSE IF e.out \notin {"ok", "BadObject"} THEN e.how \o "-of-absent-" \o e.out ELSE ""
    [] e.op = "ids" ->
         IF e.out = "ok" /\ ~(Set(e.v) \subseteq s.ever) THEN "enumeration-invents"
         ELSE IF e.fault # "" \/ ~s.exact THEN ""
         ELSE IF e.out # "ok" THEN "enumeration-fails-later-" \o e.out
         ELSE IF Set(e.v) # s.has THEN "enumeration-wrong-later" ELSE ""
    [] e.op = "refresh" -> IF e.fault = "" /\ e.out # "ok" THEN "refresh-fails-later-" \o e.out ELSE ""
    [] e.op = "end" -> IF e.fds # 0 THEN "descriptors-left" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

ReadFaultApply(s, e) ==
  CASE e.op = "change" -> [s EXCEPT !.has = Set(e.has), !.ever = @ \union Set(e.has), !.exact = FALSE]
    [] e.op = "refresh" -> [s EXCEPT !.exact = e.fault = ""]
    [] e.op \in {"q", "ids"} /\ e.fault # "" ->
         \* what raised has not been taken for an answer, neither then nor later. A composite database may go on without a part it couldn't see
         IF e.out \notin {"ok", "BadObject"} /\ (s.kind \in {"packed", "loose"} \/ e.fault = "gone") THEN s ELSE [s EXCEPT !.exact = FALSE]
    [] OTHER -> s
ReadFaultEnd(s) == ""
===============================================================================
