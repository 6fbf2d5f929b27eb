-------------------------- MODULE PackCreateContract ---------------------------
(* What a pack directory may look like for readers after every file-system step of      *)
(* creations of packs in it, and what the creations may report (C12).                    *)
(*   cfg.n processes; cfg.pre: objects there at first; cfg.news[p]: objects process p      *)
(*   puts in its pack (empty: a reader); cfg.bad[p]: its objects cannot all be read          *)
(* Observations:                                                                        *)
(*   begin  p, what         a call begins: create | look                                   *)
(*   step   p, call, res    one file-system call of p: go | err | short | crash              *)
(*          seen            what databases on the directory find behind it (only when it      *)
(*                          changed): [how, err, found, bad], how = fresh | refreshed          *)
(*          files (if chg)  processes which created the files that are not a visible pack       *)
(*   result p, what, out    create: name = pack and index are complete and named after the      *)
(*                          pack's checksum, usable = the returned entity finds the objects;     *)
(*                          fds descriptors left open                                            *)
(*                          look: seen (one record)                                             *)
EXTENDS Integers, Sequences, FiniteSets

Rng(q) == {q[j] : j \in 1..Len(q)}
PackCreateInit(cfg) ==
  [have |-> Rng(cfg.pre), news |-> [p \in 1..cfg.n |-> Rng(cfg.news[p])], bad |-> [p \in 1..cfg.n |-> cfg.bad[p]], pre |-> Rng(cfg.pre),
   must |-> [p \in 1..cfg.n |-> {}], files |-> {}, faulted |-> {}, stuck |-> {}]

\* what one database may find which was refreshed when objects m were visible
SeenVerdict(s, x, m) ==
  IF x.err # "" THEN x.how \o "-database-raises-" \o x.err
  ELSE IF x.bad THEN x.how \o "-database-finds-wrong-content"
  ELSE IF ~(m \subseteq Rng(x.found)) THEN x.how \o "-database-misses-objects"
  ELSE IF \E p \in DOMAIN s.news : \E a, b \in s.news[p] : a \in Rng(x.found) /\ b \notin Rng(x.found)
             /\ a \notin s.pre /\ ~\E q \in DOMAIN s.news : q # p /\ a \in s.news[q]
       THEN x.how \o "-database-finds-part-of-the-new-pack"
  ELSE ""
FirstBad(q, s) == LET k == {j \in 1..Len(q) : SeenVerdict(s, q[j], s.have) # ""}
                  IN IF k = {} THEN "" ELSE SeenVerdict(s, q[CHOOSE j \in k : \A i \in k : j <= i], s.have)

PackCreateVerdict(s, e) ==
  CASE e.op = "begin" -> ""
    [] e.op = "step" -> FirstBad(e.seen, s)
    [] e.op = "result" ->
         IF e.out = "hang" THEN "call-hangs"
         ELSE IF e.what = "look" THEN (IF e.p \in s.faulted THEN "" ELSE SeenVerdict(s, e.seen[1], s.must[e.p]))
         ELSE IF e.fds # 0 THEN "descriptor-left-open"
         ELSE IF e.p \in s.files /\ e.p \notin s.stuck THEN "file-left-behind"
         ELSE IF e.out = "ok" THEN
            IF s.bad[e.p] THEN "pack-of-unreadable-objects"
            ELSE IF ~(s.news[e.p] \subseteq s.have) THEN "returned-but-objects-not-found"
            ELSE IF ~e.name THEN "not-named-after-the-checksum"
            ELSE IF ~e.usable THEN "returned-entity-not-usable" ELSE ""
         ELSE IF e.p \notin s.faulted /\ ~s.bad[e.p] THEN "creation-fails-without-a-fault" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

PackCreateApply(s, e) ==
  CASE e.op = "begin" -> [s EXCEPT !.must[e.p] = s.have]
    [] e.op = "step" ->
         LET a == [s EXCEPT !.have = @ \union UNION {Rng(x.found) : x \in Rng(e.seen)}, !.files = IF e.chg THEN Rng(e.files) ELSE @]
             b == IF e.res \in {"err", "short"} THEN [a EXCEPT !.faulted = @ \union {e.p}] ELSE a
         IN IF e.res = "err" /\ e.call = "unlink" THEN [b EXCEPT !.stuck = @ \union {e.p}] ELSE b
    [] OTHER -> s
PackCreateEnd(s) == ""
================================================================================
