-------------------------- MODULE WriteStreamContract ---------------------------
(* What an observer may see of a write stream (C22).                                   *)
(*   cfg.kind  sha | flex | zip | fdz | fd                                             *)
(* Data is counted in bytes: n bytes are those given by all writes so far.                *)
(* Observations, each with sink, eof and full: how many of the bytes given arrived (all     *)
(* that is there, decompressed if need be, is a beginning of what was given; -1: it isn't), *)
(* whether what is there is complete compressed data, and whether the sink refuses more       *)
(*   write  len, out, ret                                                               *)
(*   sha    out, at         the digest is the one of the first `at` bytes (-1: of none)     *)
(*   tell   out, v, off     what it says, and the descriptor's position                     *)
(*   read   out, want, got, left, right   `got` bytes, which are those at the position; want 0: all *)
(*   seek   out, to         only to the beginning                                        *)
(*   value  out, same       all that was stored, again                                   *)
(*   close  out, open       open: the descriptor is still open                            *)
EXTENDS Integers, Sequences, FiniteSets

WriteStreamInit(cfg) == [kind |-> cfg.kind, hs |-> {0}, failed |-> FALSE, closed |-> FALSE]

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Raw(s) == s.kind \in {"flex", "fd"}
Stores(s) == s.kind # "sha"

After(s, e) ==
  CASE e.op = "write" -> [s EXCEPT !.hs = IF e.out = "ok" THEN {x + e.len : x \in @} ELSE @ \union {x + e.len : x \in @}, !.failed = @ \/ e.out # "ok"]
    [] e.op = "close" -> [s EXCEPT !.closed = TRUE, !.failed = @ \/ e.out # "ok"]
    [] OTHER -> s

SinkVerdict(s, e) ==
  LET a == After(s, e) IN
  IF ~Stores(s) THEN ""
  ELSE IF e.sink < 0 THEN "other-bytes-arrived"
  ELSE IF e.sink > Max(a.hs) THEN "more-arrived-than-given"
  ELSE IF a.failed THEN ""
  ELSE IF Raw(s) /\ e.sink # Max(a.hs) THEN "bytes-lost-without-an-error"
  ELSE IF ~Raw(s) /\ a.closed /\ (e.sink # Max(a.hs) \/ ~e.eof) THEN "closed-incomplete-without-an-error"
  ELSE ""

OwnVerdict(s, e) ==
  CASE e.op = "write" -> IF e.out = "ok" THEN (IF e.ret # e.len THEN "write-returns-wrong-length" ELSE "")
                         ELSE IF e.out = "hang" THEN "write-hangs"
                         ELSE IF ~e.full THEN "write-raised-" \o e.out ELSE ""
    [] e.op = "sha" -> IF e.out # "ok" THEN "sha-raised-" \o e.out
                       ELSE IF e.at \notin s.hs THEN "wrong-digest" ELSE ""
    [] e.op = "tell" -> IF e.out # "ok" THEN "tell-raised-" \o e.out
                        ELSE IF e.v # e.off THEN "tell-wrong" ELSE ""
    [] e.op = "read" -> IF e.out # "ok" THEN "read-raised-" \o e.out
                        ELSE IF ~e.right THEN "read-other-bytes"
                        ELSE IF e.want > 0 /\ e.got > e.want THEN "read-too-much"
                        ELSE IF e.got = 0 /\ e.left > 0 THEN "read-nothing-before-the-end"
                        ELSE IF e.want = 0 /\ e.got # e.left THEN "read-not-all" ELSE ""
    [] e.op = "seek" -> IF e.to = 0 THEN (IF e.out # "ok" THEN "rewind-raised-" \o e.out ELSE "")
                        ELSE (IF e.out = "ok" THEN "seek-not-refused" ELSE "")
    [] e.op = "value" -> IF e.out # "ok" THEN "value-raised-" \o e.out
                         ELSE IF ~e.same THEN "value-differs" ELSE ""
    [] e.op = "close" -> IF e.open THEN "descriptor-not-released"
                         ELSE IF e.out = "hang" THEN "close-hangs"
                         ELSE IF e.out # "ok" /\ ~e.full THEN "close-raised-" \o e.out ELSE ""
    [] OTHER -> "unexpected-" \o e.op

WriteStreamVerdict(s, e) == LET v == OwnVerdict(s, e) IN IF v # "" THEN v ELSE SinkVerdict(s, e)
WriteStreamApply(s, e) == After(s, e)
WriteStreamEnd(s) == ""
================================================================================
