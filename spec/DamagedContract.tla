--------------------------- MODULE DamagedContract ----------------------------
(* Objects whose storage is cut off, changed, or not what it declares (C25).         *)
(*   cfg.objs[o]  hdr    what is stored declares a type and size                        *)
(*                t, n   these                                                           *)
(*                real   so many of the n bytes can be had from what is stored            *)
(*                intact nothing is wrong with it                                          *)
(* A state: objs, and pos: how much each opened stream has delivered.                       *)
EXTENDS Integers, Sequences, FiniteSets

DamagedInit(cfg) == [objs |-> cfg.objs, str |-> <<>>]

Least(a, b) == IF a < b THEN a ELSE b
Want(s, e) == LET x == s.str[e.s] o == s.objs[x.o] IN
              IF e.n < 1 THEN o.n - x.pos ELSE Least(e.n, o.n - x.pos)

DamagedVerdict(s, e) ==
  CASE e.op # "end" /\ e.out = "hang" -> "hangs"
    [] e.op \in {"info", "open"} -> LET o == s.objs[e.o] IN
         IF e.out # "ok" THEN (IF o.intact THEN e.op \o "-of-intact-" \o e.out ELSE "")
         ELSE IF ~o.hdr THEN e.op \o "-without-header"
         ELSE IF e.t # o.t THEN e.op \o "-type"
         ELSE IF e.n # o.n THEN e.op \o "-size" ELSE ""
    [] e.op = "read" -> LET x == s.str[e.s] o == s.objs[x.o] IN
         IF e.out # "ok" THEN (IF o.intact THEN "read-of-intact-" \o e.out ELSE "")
         ELSE IF e.got < Want(s, e) THEN "ends-early"
         ELSE IF e.got > Want(s, e) THEN "delivers-too-much"
         ELSE IF x.pos + e.got > o.real \/ ~e.right THEN "delivers-what-is-not-there" ELSE ""
    [] e.op = "rewind" -> IF e.out # "ok" /\ s.objs[s.str[e.s].o].intact THEN "rewind-of-intact-" \o e.out ELSE ""
    [] e.op = "copy" -> LET o == s.objs[e.o] IN     \* to another database or a pack; there: "no" | "right" | "wrong" | "debris"
         IF e.out # "ok" THEN (IF o.intact THEN "copy-of-intact-" \o e.out
                               ELSE IF e.there # "no" THEN "failed-copy-leaves-" \o e.there ELSE "")
         ELSE IF ~o.hdr \/ o.real < o.n THEN "copies-what-is-not-there"
         ELSE IF e.there # "right" THEN "copied-" \o e.there ELSE ""
    [] e.op = "ids" -> IF e.out # "ok" THEN "enumeration-" \o e.out
                       ELSE IF {e.v[k] : k \in 1..Len(e.v)} # DOMAIN s.objs \/ Len(e.v) # Len(s.objs) THEN "enumeration-wrong" ELSE ""
    [] e.op = "end" -> IF e.fds # 0 THEN "descriptors-left" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

DamagedApply(s, e) ==
  CASE e.op = "open" /\ e.out = "ok" -> [s EXCEPT !.str = Append(@, [o |-> e.o, pos |-> 0])]
    [] e.op = "read" /\ e.out = "ok" -> [s EXCEPT !.str[e.s].pos = @ + e.got]
    [] e.op = "rewind" /\ e.out = "ok" -> [s EXCEPT !.str[e.s].pos = 0]
    [] OTHER -> s
DamagedEnd(s) == ""
===============================================================================
