-------------------------- MODULE DescriptorsContract --------------------------
(* How many descriptors a process may hold after every call on its databases (C20).     *)
(*   cfg.dbs databases on the directories                                               *)
(* Observations: one per call,                                                         *)
(*   what, out        the call and how it ended                                          *)
(*   h, where         stream: the handle it gave, and whether loose or packed storage holds *)
(*                    the object; close, drop: the handle which ends                        *)
(*   packs            packs known by now, to any database                                   *)
(*   loose, packed, other   descriptors of files of the loose directories, of the pack         *)
(*                    directory, and others more than at first                                  *)
EXTENDS Integers, Sequences, FiniteSets

DescriptorsInit(cfg) == [live |-> {}, dbs |-> cfg.dbs]

Ends == {"close", "drop"}
LiveAfter(s, e) == IF e.what = "stream" /\ e.out = "ok" /\ e.where = "loose" THEN s.live \union {e.h}
                   ELSE IF e.what \in Ends THEN s.live \ {e.h} ELSE s.live

DescriptorsVerdict(s, e) ==
  LET live == Cardinality(LiveAfter(s, e)) IN
  CASE e.op = "call" ->
         IF e.out = "hang" THEN "call-hangs"
         ELSE IF live = 0 /\ e.loose # 0 THEN "descriptor-left-by-" \o e.what \o (IF e.out = "ok" THEN "" ELSE "-failing")
         \* (one each; two are tolerated)
         ELSE IF e.loose > 2 * live THEN "more-descriptors-than-streams-behind-" \o e.what
         ELSE IF e.packed > 4 * e.packs * s.dbs THEN "more-descriptors-than-packs-behind-" \o e.what
         ELSE IF e.other > 0 THEN "descriptor-left-elsewhere-by-" \o e.what ELSE ""
    [] OTHER -> "unexpected-" \o e.op

DescriptorsApply(s, e) == IF e.op = "call" THEN [s EXCEPT !.live = LiveAfter(s, e)] ELSE s
DescriptorsEnd(s) == IF s.live # {} THEN "streams-left" ELSE ""
================================================================================
