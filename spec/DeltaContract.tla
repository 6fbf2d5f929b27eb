----------------------------- MODULE DeltaContract ----------------------------
(* What a chain of deltas denotes (C04, C05, C06).                              *)
(* Content is a sequence of units (numbers naming pieces of concrete data).     *)
(*   cfg.base    the base content, a sequence of units                          *)
(*   cfg.chain   deltas, oldest first: [src, dst, cmds]; src and dst are the     *)
(*               declared sizes, cmds are                                       *)
(*               [k |-> "c", off, len, ins |-> <<>>]   copy from the base        *)
(*               [k |-> "i", ins, ..]                  insert units              *)
(*               [k |-> "r", ..]                       the reserved command      *)
(*               [k |-> "t", ..]                       a command cut off         *)
EXTENDS Integers, Sequences

Good(v) == [ok |-> TRUE, v |-> v, why |-> ""]
Bad(w) == [ok |-> FALSE, v |-> <<>>, why |-> w]

RECURSIVE RunCmds(_, _, _)
RunCmds(c, cmds, acc) ==
  IF cmds = <<>> THEN Good(acc)
  ELSE LET h == Head(cmds) IN
    CASE h.k = "c" -> IF h.off + h.len > Len(c) THEN Bad("copy-outside-base")
                      ELSE RunCmds(c, Tail(cmds), acc \o SubSeq(c, h.off + 1, h.off + h.len))
      [] h.k = "i" -> RunCmds(c, Tail(cmds), acc \o h.ins)
      [] h.k = "r" -> Bad("reserved-command")
      [] OTHER -> Bad("cut-off-command")

ApplyDelta(c, d) ==
  IF d.src # Len(c) THEN Bad("declared-base-size-differs")
  ELSE LET r == RunCmds(c, d.cmds, <<>>)
       IN IF ~r.ok THEN r
          ELSE IF Len(r.v) < d.dst THEN Bad("produces-less-than-declared")
          ELSE IF Len(r.v) > d.dst THEN Bad("produces-more-than-declared")
          ELSE r

RECURSIVE ApplyChain(_, _)
ApplyChain(c, ds) ==
  IF ds = <<>> THEN Good(c)
  ELSE LET r == ApplyDelta(c, Head(ds)) IN IF r.ok THEN ApplyChain(r.v, Tail(ds)) ELSE r

\* only the commands themselves are looked at (no declared sizes): the bare application routine
RECURSIVE RunChain(_, _)
RunChain(c, ds) ==
  IF ds = <<>> THEN Good(c)
  ELSE LET r == RunCmds(c, Head(ds).cmds, <<>>) IN IF r.ok THEN RunChain(r.v, Tail(ds)) ELSE r

DeltaInit(cfg) == [base |-> cfg.base, chain |-> cfg.chain, type |-> cfg.type,
                   res |-> ApplyChain(cfg.base, cfg.chain), raw |-> RunChain(cfg.base, cfg.chain)]

DeltaVerdict(s, e) ==
  CASE e.op = "resolve" ->      \* a stream over the chain was opened and read up
         IF s.res.ok THEN
           IF e.out # "ok" THEN "valid-delta-raised-" \o e.out
           ELSE IF e.units # s.res.v THEN "resolved-to-wrong-bytes"
           ELSE IF e.type # s.type THEN "resolved-to-wrong-type"
           ELSE IF e.size # Len(s.res.v) THEN "resolved-to-wrong-size"
           ELSE ""
         ELSE IF e.out = "ok" \/ e.units # <<>> THEN "malformed-accepted-" \o s.res.why
         ELSE IF e.out = "hang" THEN "malformed-hangs" ELSE ""
    [] e.op = "apply" ->        \* the application routine alone
         IF s.res.ok THEN
           IF e.out # "ok" THEN "valid-delta-raised-" \o e.out
           ELSE IF e.units # s.res.v THEN "applied-to-wrong-bytes" ELSE ""
         ELSE IF ~s.raw.ok /\ e.out = "ok" THEN "malformed-applied-" \o s.raw.why
         ELSE IF e.out = "hang" THEN "malformed-hangs" ELSE ""
    [] e.op = "info" ->
         IF ~s.res.ok THEN (IF e.out = "hang" THEN "malformed-hangs" ELSE "")
         ELSE IF e.out # "ok" THEN "info-raised-" \o e.out
         ELSE IF e.type # s.type THEN "info-wrong-type"
         ELSE IF e.size # Len(s.res.v) THEN "info-wrong-size"
         ELSE ""
    [] e.op = "merge" ->        \* chunks of the merged delta: [to, ts] in units, -1 where no unit boundary
         IF ~s.res.ok THEN ""
         ELSE IF e.out # "ok" THEN "merge-raised-" \o e.out
         ELSE IF e.units # s.res.v THEN "merged-to-wrong-bytes"
         ELSE IF ~e.tiles THEN "merged-chunks-do-not-tile"
         ELSE IF e.total # Len(s.res.v) THEN "merged-size-wrong"
         ELSE IF e.check # "ok" THEN "integrity-check-raised-" \o e.check
         ELSE ""
    [] OTHER -> "unexpected-" \o e.op

DeltaApply(s, e) == s
DeltaEnd(s) == ""
===============================================================================
