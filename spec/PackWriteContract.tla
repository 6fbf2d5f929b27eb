-------------------------- MODULE PackWriteContract ---------------------------
(* Writing a pack and its index (C07).                                           *)
(*   cfg.objs   the objects supplied, in order: [u, fb, type, size, c, flaw]       *)
(*              u a number ordered as the ids, fb the first byte of the id,        *)
(*              flaw "", "short" or "long": what the stream supplies               *)
(*   cfg.count  announced number, 0 if none                                        *)
(*   cfg.index  whether an index is wanted                                         *)
(* Observed: what an independent reader finds in the two outputs.                  *)
EXTENDS Integers, Sequences, FiniteSets

PackWriteInit(cfg) == cfg

Num(s) == IF s.count = 0 THEN Len(s.objs) ELSE s.count
Take(s) == IF Num(s) > Len(s.objs) THEN s.objs ELSE SubSeq(s.objs, 1, Num(s))
MustRaise(s) == Num(s) > Len(s.objs) \/ \E k \in 1..Len(Take(s)) : Take(s)[k].flaw # ""
\* more objects than announced: stopping after the announced number and refusing are both faithful
MayRaise(s) == s.count # 0 /\ s.count < Len(s.objs)

CountOf(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : CountOf(p, p[k]) = CountOf(q, p[k])

PackVerdict(s, p) ==
  LET w == Take(s) IN
  IF ~p.magic THEN "pack-signature-wrong"
  ELSE IF p.version # 2 THEN "pack-version-wrong"
  ELSE IF p.count # Len(w) THEN "pack-count-wrong"
  ELSE IF Len(p.entries) # Len(w) \/ p.rest # 0 THEN "pack-entries-wrong-number"
  ELSE IF \E k \in 1..Len(w) : p.entries[k].type # w[k].type THEN "pack-entry-wrong-type"
  ELSE IF \E k \in 1..Len(w) : p.entries[k].size # w[k].size THEN "pack-entry-wrong-size"
  ELSE IF \E k \in 1..Len(w) : p.entries[k].c # w[k].c THEN "pack-entry-wrong-content"
  ELSE IF ~p.trailer THEN "pack-trailer-wrong" ELSE ""

\* p: entries found in the pack (offset, checksum), x: the index
IndexVerdict(s, p, x) ==
  LET w == Take(s)
      want == [k \in 1..Len(w) |-> [u |-> w[k].u, off |-> p.entries[k].off, crc |-> p.entries[k].crc]]
  IN IF ~x.magic \/ x.version # 2 THEN "index-header-wrong"
     ELSE IF Len(x.rows) # Len(w) \/ x.rest # 0 THEN "index-wrong-number"
     ELSE IF \E k \in 2..Len(x.rows) : x.rows[k-1].u > x.rows[k].u THEN "index-not-in-id-order"
     ELSE IF \E b \in 0..255 : x.fan[b + 1] # Cardinality({k \in 1..Len(w) : w[k].fb <= b}) THEN "index-fanout-wrong"
     ELSE IF ~SameBag([k \in 1..Len(w) |-> [u |-> want[k].u, off |-> want[k].off]],
                      [k \in 1..Len(w) |-> [u |-> x.rows[k].u, off |-> x.rows[k].off]]) THEN "index-offset-wrong"
     ELSE IF ~SameBag(want, x.rows) THEN "index-checksum-wrong"
     ELSE IF ~x.packsha THEN "index-names-another-pack"
     ELSE IF ~x.trailer THEN "index-trailer-wrong" ELSE ""

PackWriteVerdict(s, e) ==
  CASE e.op = "write" ->
         IF MustRaise(s) THEN (IF e.out = "ok" THEN "incomplete-supply-accepted" ELSE IF e.out = "hang" THEN "hangs" ELSE "")
         ELSE IF e.out # "ok" THEN (IF MayRaise(s) /\ e.out # "hang" THEN "" ELSE "write-raised-" \o e.out)
         ELSE IF PackVerdict(s, e.pack) # "" THEN PackVerdict(s, e.pack)
         ELSE IF s.index /\ IndexVerdict(s, e.pack, e.idx) # "" THEN IndexVerdict(s, e.pack, e.idx)
         ELSE IF ~e.retpack THEN "returned-pack-checksum-wrong"
         ELSE IF ~e.retindex THEN "returned-index-checksum-wrong" ELSE ""
    [] e.op = "rows" ->       \* the index writer alone: cfg.objs carry off and crc
         IF e.out # "ok" THEN "index-writer-raised-" \o e.out
         ELSE LET p == [entries |-> s.objs] IN
              IF IndexVerdict(s, p, e.idx) # "" THEN IndexVerdict(s, p, e.idx)
              ELSE IF ~e.retindex THEN "returned-index-checksum-wrong" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

PackWriteApply(s, e) == s
PackWriteEnd(s) == ""
===============================================================================
