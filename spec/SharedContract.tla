---------------------------- MODULE SharedContract -------------------------------
(* What an observer may see of a repository which git and gitdb use in turns (C27).              *)
(* Directory 1 has directory 2 as its alternate. cfg.n objects exist in principle; cfg.dbs: the      *)
(* directory each of gitdb's databases was opened at. Observations:                                *)
(*   write    who, d, o, out, got      an object is written; got: the object whose id was reported     *)
(*   pack     who, db, d, os, out      a pack of objects is written; left: files left by a failure        *)
(*   maint    what, d                  prunepacked: git drops loose objects which are packed as well    *)
(*                                     repack: all of them into one pack; prune: git drops loose ones     *)
(*                                     which nothing refers to (that is: all)                          *)
(*   refresh  db, out                                                                            *)
(*   ask      who, db, d, o, out, got  has, information, content: got is the object with that type, size   *)
(*                                     and content (0: none has)                                    *)
(*   list     who, db, d, all, out     the objects told (0: none of them)                              *)
(*   part     who, db, d, m, out, got  an abbreviation, m: the objects it fits                          *)
(*   verify   who, all, out            the pack written last, checked by the other side                  *)
EXTENDS Integers, Sequences, FiniteSets

Rng(q) == {q[j] : j \in 1..Len(q)}
SharedInit(cfg) == [n |-> cfg.n, dbs |-> cfg.dbs, loose |-> <<{}, {}>>, packed |-> <<{}, {}>>, ever |-> {},
                    \* what was there when the database looked at its packs; what happened to packs since
                    known |-> [h \in 1..Len(cfg.dbs) |-> {}], lax |-> [h \in 1..Len(cfg.dbs) |-> "no"], last |-> {}]

Local(s, d) == s.loose[d] \union s.packed[d]
Sees(s, d) == Local(s, d) \union (IF d = 1 THEN Local(s, 2) ELSE {})
LooseSeen(s, d) == s.loose[d] \union (IF d = 1 THEN s.loose[2] ELSE {})
Clean(s, e) == e.who = "git" \/ s.lax[e.db] = "no"
\* to be found without fail
Must(s, e) == IF Clean(s, e) THEN Sees(s, e.d)
              ELSE IF s.lax[e.db] = "added" THEN (s.known[e.db] \intersect Sees(s, e.d)) \union LooseSeen(s, e.d) ELSE {}

SharedVerdict(s, e) ==
  CASE e.op = "write" -> IF e.out # "ok" THEN e.who \o "-write-raised-" \o e.out ELSE IF e.got # e.o THEN e.who \o "-write-other-id" ELSE ""
    [] e.op = "pack" -> IF e.out # "ok" /\ ~(e.who = "gitdb" /\ ~(Rng(e.os) \subseteq Must(s, e))) THEN e.who \o "-pack-raised-" \o e.out
                        ELSE IF e.left > 0 THEN e.who \o "-pack-left-files" ELSE ""
    [] e.op = "maint" -> IF e.out # "ok" THEN "git-can-not-work" ELSE ""
    [] e.op = "refresh" -> IF e.out # "ok" THEN "refresh-raised-" \o e.out ELSE ""
    [] e.op = "ask" ->
         IF e.out = "ok" THEN
            IF e.got # e.o THEN e.who \o "-wrong-object"
            ELSE IF e.o \notin (IF Clean(s, e) THEN Sees(s, e.d) ELSE s.ever) THEN e.who \o "-object-from-nowhere" ELSE ""
         ELSE IF e.o \in Must(s, e) THEN e.who \o "-lacks-present-object-" \o e.out
         ELSE IF Clean(s, e) /\ e.out # "BadObject" THEN e.who \o "-raised-" \o e.out ELSE ""
    [] e.op = "list" ->
         IF e.out # "ok" THEN (IF Clean(s, e) \/ Must(s, e) # {} THEN e.who \o "-listing-raised-" \o e.out ELSE "")
         ELSE IF ~(Rng(e.all) \subseteq (IF Clean(s, e) THEN Sees(s, e.d) ELSE s.ever)) THEN e.who \o "-lists-absent-object"
         ELSE IF ~(Must(s, e) \subseteq Rng(e.all)) THEN e.who \o "-listing-lacks-object" ELSE ""
    [] e.op = "part" ->
         LET c == Rng(e.m) \intersect Sees(s, e.d) IN
         IF e.out = "ok" THEN (IF e.got \notin (IF Clean(s, e) THEN c ELSE Rng(e.m) \intersect s.ever) THEN e.who \o "-abbreviation-of-another"
                               ELSE IF Cardinality(Must(s, e) \intersect Rng(e.m)) > 1 THEN e.who \o "-ambiguity-missed" ELSE "")
         ELSE IF ~Clean(s, e) THEN ""
         ELSE IF c = {} THEN (IF e.out = "BadObject" THEN "" ELSE e.who \o "-abbreviation-raised-" \o e.out)
         ELSE IF Cardinality(c) = 1 THEN e.who \o "-abbreviation-raised-" \o e.out
         ELSE IF e.out # "Ambiguous" THEN e.who \o "-abbreviation-raised-" \o e.out ELSE ""
    [] e.op = "verify" -> IF e.out # "ok" THEN e.who \o "-rejects-pack-" \o e.out
                          ELSE IF Rng(e.all) # s.last THEN e.who \o "-sees-other-objects-in-pack" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

Upset(s, how) == [s EXCEPT !.lax = [h \in DOMAIN @ |-> IF how = "gone" \/ @[h] = "gone" THEN "gone" ELSE "added"]]
SharedApply(s, e) ==
  CASE e.op = "write" -> [s EXCEPT !.loose[e.d] = IF e.o \in Sees(s, e.d) /\ e.who = "git" THEN @ ELSE @ \union {e.o}, !.ever = @ \union {e.o}]
    [] e.op = "pack" /\ e.out = "ok" -> [Upset(s, "added") EXCEPT !.packed[e.d] = @ \union Rng(e.os), !.last = Rng(e.os)]
    [] e.op = "maint" ->
         LET gone == IF e.what = "prunepacked" THEN s.loose[e.d] \intersect (s.packed[e.d] \union (IF e.d = 1 THEN s.packed[2] ELSE {})) ELSE s.loose[e.d]
             t == [s EXCEPT !.loose[e.d] = @ \ gone, !.packed[e.d] = IF e.what = "repack" THEN @ \union s.loose[e.d] ELSE @]
         IN Upset(t, "gone")
    [] e.op = "refresh" -> [s EXCEPT !.lax[e.db] = "no", !.known[e.db] = Sees(s, s.dbs[e.db])]
    [] OTHER -> s
SharedEnd(s) == ""
================================================================================
