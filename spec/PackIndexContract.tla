-------------------------- MODULE PackIndexContract ---------------------------
(* A pack index as a table in id order (C08), and abbreviated ids over any set   *)
(* of storages (C09).                                                            *)
(*   index:   cfg.rows  sequence of [u, off, crc]: u a number ordered as the ids  *)
(*            are, off and crc text; cfg.version                                  *)
(*            cfg.alien  the file says it is of a version nobody knows             *)
(*   abbrev:  cfg.ids   sequence of distinct ids, each a sequence of digits       *)
(*            cfg.sees  for every handle the set (sequence) of ids its parts hold *)
EXTENDS Integers, Sequences, FiniteSets

PackIndexInit(cfg) == cfg

Positions(s, u) == {k \in 1..Len(s.rows) : s.rows[k].u = u}

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ \A k \in 1..Len(p) : p[k] = q[k]
Matches(s, e) == {k \in {s.sees[e.d][j] : j \in 1..Len(s.sees[e.d])} : IsPrefixOf(e.prefix, s.ids[k])}

RowVerdict(s, e, what) ==
  IF e.out # "ok" THEN what \o "-raised-" \o e.out ELSE ""

PackIndexVerdict(s, e) ==
  CASE s.alien /\ e.op # "sums" ->    \* (the trailer is where it always is)
         IF e.out = "ok" THEN "index-of-an-unknown-version-answers" ELSE IF e.out = "hang" THEN "index-of-an-unknown-version-hangs" ELSE ""
    [] e.op = "size" -> IF e.out # "ok" THEN "size-raised-" \o e.out
                        ELSE IF e.v # Len(s.rows) THEN "size-wrong" ELSE ""
    [] e.op = "version" -> IF e.out # "ok" THEN "version-raised-" \o e.out
                           ELSE IF e.v # s.version THEN "version-wrong" ELSE ""
    [] e.op = "row" ->     \* one entry asked for in one way; -1 / "" where that way does not tell
         IF e.out # "ok" THEN e.way \o "-raised-" \o e.out
         ELSE IF e.u >= 0 /\ e.u # s.rows[e.i].u THEN e.way \o "-wrong-id"
         ELSE IF e.off # "" /\ e.off # s.rows[e.i].off THEN e.way \o "-wrong-offset"
         ELSE IF e.crc # "" /\ e.crc # s.rows[e.i].crc THEN e.way \o "-wrong-checksum"
         ELSE ""
    [] e.op = "offsets" ->
         IF e.out # "ok" THEN "offsets-raised-" \o e.out
         ELSE IF Len(e.v) # Len(s.rows) THEN "offsets-wrong-number"
         ELSE IF \E k \in 1..Len(e.v) : e.v[k] # s.rows[k].off THEN "offsets-wrong-value"
         ELSE ""
    [] e.op = "lookup" ->
         IF e.out # "ok" THEN "lookup-raised-" \o e.out
         ELSE IF Positions(s, e.u) = {} THEN (IF e.v = 0 THEN "" ELSE "lookup-invents")
         ELSE IF e.v = 0 THEN "lookup-misses"
         ELSE IF e.v \notin Positions(s, e.u) THEN "lookup-wrong-position"
         ELSE ""
    [] e.op = "sums" -> IF e.out # "ok" THEN "checksums-raised-" \o e.out
                        ELSE IF ~e.pack THEN "pack-checksum-wrong"
                        ELSE IF ~e.index THEN "index-checksum-wrong" ELSE ""
    [] e.op = "abbrev" ->
         LET m == Matches(s, e) IN
         IF m = {} THEN (IF e.out = "BadObject" THEN "" ELSE IF e.out = "ok" THEN "abbreviation-of-nothing-resolved"
                                                  ELSE "abbreviation-of-nothing-raised-" \o e.out)
         ELSE IF Cardinality(m) > 1 THEN (IF e.out = "Ambiguous" THEN ""
                                          ELSE IF e.out = "ok" THEN "ambiguous-abbreviation-resolved"
                                          ELSE "ambiguous-abbreviation-raised-" \o e.out)
         ELSE IF e.out # "ok" THEN "unique-abbreviation-raised-" \o e.out
         ELSE IF e.id \notin m THEN "unique-abbreviation-wrong-id" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

PackIndexApply(s, e) == s
PackIndexEnd(s) == ""
===============================================================================
