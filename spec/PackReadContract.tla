--------------------------- MODULE PackReadContract ---------------------------
(* Reading a pack by id, by position and by walking it (C10), and verifying its   *)
(* entries (C11).                                                                *)
(*   cfg.entries  in pack order: [kind, base, u, type, size, c, ssize, sc, off,    *)
(*                stype, dam, loff, lu]                                              *)
(*      kind "whole" | "ofs" | "ref"; base: position of the base, 0: not in pack   *)
(*      u: number ordered as the ids; type, size, c: the object it denotes         *)
(*      (meaningless if unresolvable); ssize, sc, stype: what is stored            *)
(*      dam "" | "flip" | "swap": how its stored bytes were damaged (swap: they    *)
(*      are those of another object); crcok: the index checksum fits the bytes      *)
(*   cfg.alien    the file doesn't start like a pack: nothing of it may be read    *)
(*   cfg.version  of the index                                                     *)
EXTENDS Integers, Sequences, FiniteSets

PackReadInit(cfg) == [entries |-> cfg.entries, version |-> cfg.version, alien |-> cfg.alien, n |-> Len(cfg.entries),
                      flen |-> IF "flen" \in DOMAIN cfg THEN cfg.flen ELSE ""]

\* positions from an entry down to its root, ending where the base is missing or repeats
RECURSIVE ChainOf(_, _, _)
ChainOf(s, k, seen) ==
  LET e == s.entries[k] IN
  IF e.kind = "whole" \/ e.base = 0 \/ e.base \in seen \/ e.base = k THEN <<k>>
  ELSE <<k>> \o ChainOf(s, e.base, seen \union {k})
Chain(s, k) == ChainOf(s, k, {})
\* the links from k lead in a circle
Cyclic(s, k) == LET ch == Chain(s, k) l == s.entries[ch[Len(ch)]] IN l.kind # "whole" /\ l.base # 0
Root(s, k) == Chain(s, k)[Len(Chain(s, k))]
Resolvable(s, k) == s.entries[Root(s, k)].kind = "whole"
Ent(s, k) == s.entries[k]

ObjVerdict(s, e, k, what) ==
  IF ~Resolvable(s, k) THEN
     (IF e.out = "BadObject" THEN "" ELSE IF e.out = "ok" THEN what \o "-unresolvable-yields-data" ELSE what \o "-unresolvable-raised-" \o e.out)
  ELSE IF e.out # "ok" THEN what \o "-raised-" \o e.out
  ELSE IF e.u >= 0 /\ e.u # Ent(s, k).u THEN what \o "-wrong-id"
  ELSE IF e.type # Ent(s, Root(s, k)).type THEN what \o "-wrong-type"
  ELSE IF e.size # Ent(s, k).size THEN what \o "-wrong-size"
  ELSE IF what = "stream" /\ e.c # Ent(s, k).c THEN what \o "-wrong-content"
  ELSE ""

ItemOk(s, k, x, data) == x.off = Ent(s, k).off /\ x.stype = Ent(s, k).stype /\ x.size = Ent(s, k).ssize
                         /\ (data => x.c = Ent(s, k).sc)
                         /\ (Ent(s, k).dam = "" =>       \* what it tells about its base: the offset, or the id
                               /\ x.lu = Ent(s, k).lu
                               /\ (x.loff = Ent(s, k).loff \/ (Ent(s, k).loff = "nowhere" /\ x.loff # "")))

\* position in pack order of the j-th entry in id order
ByRank(s, j) == CHOOSE k \in 1..s.n : Cardinality({m \in 1..s.n : Ent(s, m).u < Ent(s, k).u}) = j - 1

PackReadVerdict(s, e) ==
  CASE s.alien /\ e.op = "ids" -> ""        \* the index may have the ids
    [] s.alien /\ e.op # "ids" ->
         IF e.out = "ok" THEN "what-is-not-a-pack-is-read" ELSE IF e.out = "hang" THEN "what-is-not-a-pack-hangs" ELSE ""
    [] e.op \in {"info", "stream"} ->
         IF e.k = 0 THEN (IF e.out = "BadObject" THEN "" ELSE e.op \o "-of-absent-" \o e.out)
         ELSE ObjVerdict(s, e, e.k, e.op)
    [] e.op = "walk" ->       \* from: position of the first entry expected
         IF e.out # "ok" THEN "walk-raised-" \o e.out
         ELSE IF Len(e.items) # s.n - e.from + 1 THEN
              IF Len(e.items) < s.n - e.from + 1 THEN "walk-misses-entries" ELSE "walk-beyond-the-end"
         ELSE IF \E j \in 1..Len(e.items) : ~ItemOk(s, e.from + j - 1, e.items[j], e.data) THEN "walk-wrong-entry"
         ELSE ""
    [] e.op = "entry" ->      \* a single entry by its offset, as it is stored
         IF e.out # "ok" THEN "entry-raised-" \o e.out
         ELSE IF ~ItemOk(s, e.k, e.item, e.data) THEN "entry-wrong" ELSE ""
    [] e.op = "iter" ->       \* all objects, in id order, up to the first unresolvable one
         LET bad == {j \in 1..s.n : ~Resolvable(s, ByRank(s, j))}
             upto == IF bad = {} THEN s.n ELSE (CHOOSE j \in bad : \A i \in bad : j <= i) - 1
         IN IF bad = {} /\ e.out # "ok" THEN "iter-raised-" \o e.out
            ELSE IF bad # {} /\ e.out # "BadObject" THEN "iter-unresolvable-" \o e.out
            ELSE IF Len(e.items) # upto THEN "iter-wrong-number"
            ELSE IF \E j \in 1..upto : LET x == e.items[j] k == ByRank(s, j) IN
                      ~(x.u = Ent(s, k).u /\ x.type = Ent(s, Root(s, k)).type /\ x.size = Ent(s, k).size
                        /\ (e.data => x.c = Ent(s, k).c)) THEN "iter-wrong-object"
            ELSE ""
    [] e.op = "chain" ->
         \* (a base that cannot be located may be refused here already)
         IF Cyclic(s, e.k) \/ (~Resolvable(s, e.k) /\ Ent(s, Root(s, e.k)).kind = "ofs") THEN (IF e.out = "hang" THEN "collect-hangs" ELSE "")
         ELSE IF e.out # "ok" THEN "collect-raised-" \o e.out
         ELSE IF e.offs # [j \in 1..Len(Chain(s, e.k)) |-> Ent(s, Chain(s, e.k)[j]).off] THEN "collect-wrong-chain" ELSE ""
    [] e.op = "pack" ->
         IF e.out # "ok" THEN "pack-raised-" \o e.out
         ELSE IF e.size # s.n THEN "pack-size-wrong"
         ELSE IF e.version # 2 THEN "pack-version-wrong"
         ELSE IF ~e.sum THEN "pack-checksum-wrong" ELSE ""
    [] e.op = "data" ->       \* the whole file as one buffer: its length, and whether samples are what the file has
         IF e.out # "ok" THEN "data-raised-" \o e.out
         ELSE IF e.len # s.flen THEN "data-is-not-the-whole-pack" ELSE IF ~e.same THEN "data-wrong" ELSE ""
    [] e.op = "ids" ->
         IF e.out # "ok" THEN "enumeration-raised-" \o e.out
         ELSE IF Len(e.us) # s.n \/ {e.us[j] : j \in 1..Len(e.us)} # {Ent(s, j).u : j \in 1..s.n} THEN "enumeration-wrong" ELSE ""
    [] e.op = "crc" ->        \* verification by stored checksum
         IF s.version < 2 THEN (IF e.out = "Unsupported" THEN "" ELSE "version-1-crc-" \o e.out)
         ELSE IF e.k = 0 THEN (IF e.out = "BadObject" THEN "" ELSE "verify-absent-" \o e.out)
         ELSE IF Ent(s, e.k).crcok THEN
            IF e.out # "ok" THEN "intact-crc-raised-" \o e.out ELSE IF ~e.v THEN "intact-crc-reported-invalid" ELSE ""
         ELSE IF e.out = "ok" /\ e.v THEN "damage-not-noticed-by-crc" ELSE IF e.out = "hang" THEN "verify-hangs" ELSE ""
    [] e.op = "sha" ->        \* verification by id; got: whether the object as read hashes to its id
         LET ch == Chain(s, e.k)
             flip == \E j \in 1..Len(ch) : Ent(s, ch[j]).dam = "flip"
             swap == \E j \in 1..Len(ch) : Ent(s, ch[j]).dam = "swap"
         IN IF e.k = 0 THEN (IF e.out = "BadObject" THEN "" ELSE "verify-absent-" \o e.out)
            ELSE IF e.out = "hang" THEN "verify-hangs"
            ELSE IF ~flip /\ ~swap THEN
               IF ~Resolvable(s, e.k) THEN (IF e.out = "ok" THEN "verify-unresolvable-answers" ELSE "")
               ELSE IF e.out # "ok" THEN "intact-raised-" \o e.out ELSE IF ~e.v THEN "intact-reported-invalid" ELSE ""
            ELSE IF e.got # "same" /\ e.out = "ok" /\ e.v THEN "damage-not-noticed-by-id"
            ELSE IF ~flip /\ e.got = "differs" /\ e.out # "ok" THEN "decodable-damage-raised-" \o e.out
            ELSE ""
    [] OTHER -> "unexpected-" \o e.op

PackReadApply(s, e) == s
PackReadEnd(s) == ""
===============================================================================
