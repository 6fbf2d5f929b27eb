--------------------------- MODULE ReadStreamContract -------------------------
(* Contract of an object stream (C03): a cursor over a content of known length. *)
(* Content is referred to by position; a returned chunk is an interval.         *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b

\* how many bytes a read of size n at position pos of a content of length len returns
Want(len, pos, n) == IF n < 1 THEN len - pos ELSE Min2(n, len - pos)

StreamInit(cfg) == [len |-> cfg.len, clen |-> cfg.clen, pos |-> 0]

StreamVerdict(s, e) ==
  CASE e.op = "read" ->
         IF e.out # "ok" THEN "read-raised-" \o e.out
         ELSE IF e.k = 0 /\ Want(s.len, s.pos, e.n) > 0 THEN "read-empty-before-end"
         ELSE IF e.k < Want(s.len, s.pos, e.n) THEN "read-short"
         ELSE IF e.k > Want(s.len, s.pos, e.n) THEN "read-too-much"
         ELSE IF e.k > 0 /\ e.at # s.pos THEN "read-wrong-bytes"
         ELSE ""
    [] e.op = "seek" -> IF e.out # "ok" THEN "rewind-raised-" \o e.out ELSE ""
    [] e.op = "size" -> IF e.out # "ok" THEN "size-raised-" \o e.out
                        ELSE IF e.v # s.len THEN "size-wrong" ELSE ""
    [] e.op = "clen" -> IF e.out # "ok" THEN "compressed-length-raised-" \o e.out
                        ELSE IF s.pos = s.len /\ s.clen >= 0 /\ e.v # s.clen THEN "compressed-length-wrong"
                        ELSE ""
    [] OTHER -> "unexpected-" \o e.op

StreamApply(s, e) ==
  CASE e.op = "read" -> [s EXCEPT !.pos = @ + e.k]
    [] e.op = "seek" -> [s EXCEPT !.pos = 0]
    [] OTHER -> s

StreamEnd(s) == ""
===============================================================================
