--------------------------- MODULE ContentsContract -----------------------------
(* What an observer may see of the contents of a file, of allocated memory and of the copy of a   *)
(* stream (C26).                                                                               *)
(*   cfg.kind   file | mem | copy                                                               *)
(*   cfg.size   bytes of the file, of the memory; number of bytes to copy                          *)
(*   cfg.chunk, cfg.len, cfg.head   copy: chunk size, bytes the source has, bytes of the header     *)
(* Data is told by where it is found: at, all positions of the true content at which those len bytes are. *)
(* Observations:                                                                               *)
(*   open    out, len, missing, hit     hit: a system call other than mapping was made to fail      *)
(*           fds: descriptors more than before; kept: a descriptor handed in is still open          *)
(*   fill    n, out                     the next n bytes are written                               *)
(*   slice   a, b, out, len, at         x[a:b], a and b as python takes them                        *)
(*   index   a, out, at                 x[a]                                                      *)
(*   seek    to, out                                                                            *)
(*   tell    out, v                                                                             *)
(*   len     out, v                     len(x), at any position                                    *)
(*   read    n, out, len, at            n < 0: everything                                           *)
(*   drop    fds                        the memory is let go                                        *)
(*   ask     n, gave                    the copy reads n bytes from its source, which gives those     *)
(*   fail                               the source or the sink raises                               *)
(*   put     len, at                    and passes bytes on                                         *)
(*   end     out, ret                                                                           *)
EXTENDS Integers, Sequences, FiniteSets

ContentsInit(cfg) == [kind |-> cfg.kind, size |-> cfg.size, chunk |-> cfg.chunk, len |-> cfg.len, head |-> cfg.head,
                      pos |-> 0, filled |-> (IF cfg.kind = "mem" THEN 0 ELSE cfg.size), open |-> FALSE, given |-> 0, put |-> 0, failed |-> FALSE]

CMin(a, b) == IF a < b THEN a ELSE b
CMax(a, b) == IF a < b THEN b ELSE a
\* a bound of a slice
Bound(x, n) == IF x < 0 THEN CMax(0, n + x) ELSE CMin(x, n)
There(e, off) == e.len = 0 \/ \E j \in 1..Len(e.at) : e.at[j] = off

ContentsVerdict(s, e) ==
  CASE e.op = "open" ->
         IF e.out = "hang" THEN "opening-hangs"
         ELSE IF ~e.kept THEN "descriptor-of-the-caller-closed"
         ELSE IF e.out # "ok" THEN
            IF ~e.hit /\ ~e.missing THEN "opening-raised-" \o e.out
            ELSE IF e.fds # 0 THEN "descriptor-left-by-failure" ELSE ""
         ELSE IF e.missing THEN "missing-file-opened"
         ELSE IF e.len # s.size THEN "wrong-length" ELSE ""
    [] e.op = "fill" -> IF e.out # "ok" THEN "filling-raised-" \o e.out ELSE ""
    [] e.op = "slice" ->
         LET a == Bound(e.a, s.size)
             b == Bound(e.b, s.size)
         IN IF e.out # "ok" THEN "slice-raised-" \o e.out
            ELSE IF e.len # CMax(0, b - a) THEN "slice-of-wrong-length"
            ELSE IF ~There(e, a) THEN "slice-of-other-bytes" ELSE ""
    [] e.op = "index" ->
         LET ok == e.a >= -s.size /\ e.a < s.size IN
         IF ~ok THEN (IF e.out = "IndexError" THEN "" ELSE "index-outside-not-refused")
         ELSE IF e.out # "ok" THEN "index-raised-" \o e.out
         ELSE IF ~There(e, Bound(e.a, s.size)) THEN "index-of-another-byte" ELSE ""
    [] e.op = "seek" -> IF e.out # "ok" THEN "seek-raised-" \o e.out ELSE ""
    [] e.op = "tell" -> IF e.out # "ok" THEN "tell-raised-" \o e.out ELSE IF e.v # s.pos THEN "tell-wrong" ELSE ""
    [] e.op = "len" -> IF e.out # "ok" THEN "len-raised-" \o e.out ELSE IF e.v # s.size THEN "len-wrong" ELSE ""
    [] e.op = "read" ->
         LET want == IF e.n < 0 THEN s.size - s.pos ELSE CMin(e.n, s.size - s.pos) IN
         IF e.out # "ok" THEN "read-raised-" \o e.out
         ELSE IF e.len # want THEN "read-of-wrong-length"
         ELSE IF ~There(e, s.pos) THEN "read-of-other-bytes" ELSE ""
    [] e.op = "drop" -> IF e.fds # 0 THEN "descriptor-left-behind" ELSE ""
    [] e.op = "ask" ->
         IF e.n < 1 THEN "asks-for-everything"
         ELSE IF e.n > s.chunk THEN "asks-for-more-than-a-chunk"
         ELSE IF e.n > s.size - s.given THEN "asks-for-more-than-wanted" ELSE ""
    [] e.op = "fail" -> ""
    [] e.op = "put" ->
         IF s.put + e.len > s.head + s.given THEN "passes-on-more-than-it-got"
         ELSE IF ~There(e, s.put) THEN "passes-on-other-bytes" ELSE ""
    [] e.op = "end" ->
         IF e.out = "hang" THEN "copy-hangs"
         ELSE IF s.failed THEN (IF e.out = "ok" THEN "failure-swallowed" ELSE "")
         ELSE IF e.out # "ok" THEN "copy-raised-" \o e.out
         ELSE IF s.put # s.head + CMin(s.size, s.len) THEN "copy-not-complete"
         ELSE IF e.ret # s.put THEN "copy-returns-wrong-number" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

ContentsApply(s, e) ==
  CASE e.op = "open" -> [s EXCEPT !.open = e.out = "ok"]
    [] e.op = "fill" -> [s EXCEPT !.filled = @ + e.n, !.pos = @ + e.n]
    [] e.op = "seek" -> [s EXCEPT !.pos = e.to]
    [] e.op = "read" -> [s EXCEPT !.pos = @ + e.len]
    [] e.op = "ask" -> [s EXCEPT !.given = @ + e.gave]
    [] e.op = "put" -> [s EXCEPT !.put = @ + e.len]
    [] e.op = "fail" -> [s EXCEPT !.failed = TRUE]
    [] OTHER -> s
ContentsEnd(s) == ""
================================================================================
