---------------------------- MODULE EncodingContract ----------------------------
(* Headers of objects and ids, byte by byte (C23). Bytes are numbers 0..255. A size is      *)
(* written as bits, least significant first, without leading zeros (0: << >>), or as         *)
(* decimal digits, most significant first.                                               *)
(* Observations:                                                                         *)
(*   pack    t, bits, out, bytes      header written for a pack entry                        *)
(*   unpack  bytes, out, t, bits, len what was read from such a header, whatever follows        *)
(*   msb     bytes, at, out, bits, end   size in front of a delta, read at position `at`       *)
(*   loose   type, dec, out, bytes    header written for a loose object                       *)
(*   unloose type, dec, out, gtype, gdec   what was read from it, compressed                    *)
(*   hex     bin, out, digits, back   an id as digits, and back                               *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Val(_)
Val(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * Val(Tail(b))
Take(b, k) == SubSeq(b, 1, IF k < Len(b) THEN k ELSE Len(b))
Drop(b, k) == SubSeq(b, k + 1, Len(b))
\* the k lowest bits of a byte
Bits(v, k) == [j \in 1..k |-> (v \div (2 ^ (j - 1))) % 2]
RECURSIVE Trim(_)
Trim(b) == IF b = <<>> \/ b[Len(b)] = 1 THEN b ELSE Trim(SubSeq(b, 1, Len(b) - 1))

\* groups of seven bits, all but the last one marked
RECURSIVE Groups(_)
Groups(b) == IF Len(b) <= 7 THEN <<Val(b)>> ELSE <<128 + Val(Take(b, 7))>> \o Groups(Drop(b, 7))
PackHeader(t, b) == IF Len(b) <= 4 THEN <<16 * t + Val(b)>> ELSE <<128 + 16 * t + Val(Take(b, 4))>> \o Groups(Drop(b, 4))

\* number of bytes a size takes from position k on, 0 if it doesn't end
RECURSIVE Span(_, _)
Span(d, k) == IF k > Len(d) THEN 0 ELSE IF d[k] < 128 THEN 1 ELSE LET r == Span(d, k + 1) IN IF r = 0 THEN 0 ELSE 1 + r
RECURSIVE Size(_, _, _)
Size(d, k, n) == IF n = 0 THEN <<>> ELSE Bits(d[k], 7) \o Size(d, k + 1, n - 1)
\* -> [ok, t, bits, len]
Unpack(d) == LET n == Span(d, 1) IN
             IF n = 0 THEN [ok |-> FALSE, t |-> 0, bits |-> <<>>, len |-> 0]
             ELSE [ok |-> TRUE, t |-> (d[1] \div 16) % 8, bits |-> Trim(Bits(d[1], 4) \o Size(d, 2, n - 1)), len |-> n]
Msb(d, at) == LET n == Span(d, at + 1) IN
              IF n = 0 THEN [ok |-> FALSE, bits |-> <<>>, end |-> 0]
              ELSE [ok |-> TRUE, bits |-> Trim(Size(d, at + 1, n)), end |-> at + n]
Loose(type, dec) == type \o <<32>> \o [k \in 1..Len(dec) |-> 48 + dec[k]] \o <<0>>
Digit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> THEN <<>> ELSE <<Digit(b[1] \div 16), Digit(b[1] % 16)>> \o Hex(Tail(b))

EncodingInit(cfg) == 0
EncodingVerdict(s, e) ==
  CASE e.op = "pack" -> IF e.out # "ok" THEN "entry-header-raised-" \o e.out ELSE IF e.bytes # PackHeader(e.t, e.bits) THEN "entry-header-wrong" ELSE ""
    [] e.op = "unpack" -> LET u == Unpack(e.bytes) IN
                          IF u.ok /\ u.t \in {0, 5} /\ e.out \notin {"ok", "hang"} THEN ""     \* reserved, such an object may be refused
                          ELSE IF ~u.ok THEN (IF e.out = "ok" THEN "endless-header-read" ELSE IF e.out = "hang" THEN "reading-header-hangs" ELSE "")
                          ELSE IF e.out # "ok" THEN "reading-header-raised-" \o e.out
                          ELSE IF e.t # u.t THEN "type-read-wrong" ELSE IF e.bits # u.bits THEN "size-read-wrong"
                          ELSE IF e.len # u.len THEN "header-length-wrong" ELSE ""
    [] e.op = "msb" -> LET u == Msb(e.bytes, e.at) IN
                       IF ~u.ok THEN (IF e.out = "ok" THEN "endless-size-read" ELSE IF e.out = "hang" THEN "reading-size-hangs" ELSE "")
                       ELSE IF e.out # "ok" THEN "reading-size-raised-" \o e.out
                       ELSE IF e.bits # u.bits THEN "delta-size-wrong" ELSE IF e.end # u.end THEN "delta-size-end-wrong" ELSE ""
    [] e.op = "loose" -> IF e.out # "ok" THEN "loose-header-raised-" \o e.out ELSE IF e.bytes # Loose(e.type, e.dec) THEN "loose-header-wrong" ELSE ""
    [] e.op = "unloose" -> IF e.out # "ok" THEN "reading-loose-header-raised-" \o e.out
                           ELSE IF e.gtype # e.type THEN "loose-type-wrong" ELSE IF e.gdec # e.dec THEN "loose-size-wrong" ELSE ""
    [] e.op = "hex" -> IF e.out # "ok" THEN "id-raised-" \o e.out
                       ELSE IF e.digits # Hex(e.bin) THEN "id-digits-wrong" ELSE IF e.back # e.bin THEN "id-not-restored" ELSE ""
    [] OTHER -> "unexpected-" \o e.op
EncodingApply(s, e) == s
EncodingEnd(s) == ""
================================================================================
