-------------------------------- MODULE Encoding --------------------------------
(* Reading headers byte by byte as the library does (C23): an accumulator, a shift which    *)
(* grows by 4 and then 7, and a position, until a byte isn't marked. For every type, every     *)
(* size of up to MaxBits bits, padded by up to Pad empty groups, and whatever follows: what      *)
(* is read is what was written. Mutants (negative controls):                                *)
(*   "shift"  the first shift is 7;  "mask"  marks are taken for a part of the size;             *)
(*   "end"    the length doesn't count the last byte                                          *)
EXTENDS EncodingContract, TLC, Json

CONSTANTS MaxBits, Pad, Mutant, Gen
VARIABLES what, t, bits, data, pos, shift, acc, mark, done
vars == <<what, t, bits, data, pos, shift, acc, mark, done>>
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S

Sizes == {<<>>} \union {[k \in 1..n |-> IF k = n THEN 1 ELSE b[k]] : n \in 1..MaxBits, b \in [1..(MaxBits - 1) -> {0, 1}]}
\* empty groups behind the last one: not what is written, but allowed to be read
RECURSIVE Longer(_, _)
Longer(d, n) == IF n = 0 THEN d ELSE Longer([d EXCEPT ![Len(d)] = @ + 128] \o <<0>>, n - 1)
Tails == {<<>>, <<0>>, <<255, 255>>, <<129>>}
Init == /\ what \in Pick({"pack", "msb"}) /\ t \in Pick(IF Gen THEN 1..7 ELSE {1, 7}) /\ bits \in Pick(Sizes)
        /\ \E p \in Pick(0..Pad), tl \in Pick(Tails) : data = Longer(IF what = "pack" THEN PackHeader(t, bits) ELSE Groups(bits), p) \o tl
        /\ pos = 0 /\ shift = 0 /\ acc = <<>> /\ mark = TRUE /\ done = FALSE

\* acc | (v << s)
Bit(a, k) == k \in DOMAIN a /\ a[k] = 1
Add(a, v, s) == [k \in 1..(IF Len(a) > s + Len(v) THEN Len(a) ELSE s + Len(v)) |-> IF Bit(a, k) \/ Bit(v, k - s) THEN 1 ELSE 0]
Read == /\ ~done /\ mark /\ pos < Len(data)
        /\ LET c == data[pos + 1]
               first == what = "pack" /\ pos = 0
               v == Bits(c, IF first THEN 4 ELSE IF Mutant = "mask" THEN 8 ELSE 7)
           IN /\ acc' = Add(acc, v, shift)
              /\ shift' = shift + (IF first /\ Mutant # "shift" THEN 4 ELSE 7)
              /\ mark' = (c >= 128) /\ pos' = pos + 1
        /\ UNCHANGED <<what, t, bits, data, done>>
Finish == ~done /\ ~mark /\ done' = TRUE /\ UNCHANGED <<what, t, bits, data, pos, shift, acc, mark>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars

Len2 == IF Mutant = "end" THEN pos - 1 ELSE pos
Right == done => IF what = "pack" THEN EncodingVerdict(0, [op |-> "unpack", bytes |-> data, out |-> "ok", t |-> (data[1] \div 16) % 8, bits |-> Trim(acc), len |-> Len2]) = ""
                                  ELSE EncodingVerdict(0, [op |-> "msb", bytes |-> data, at |-> 0, out |-> "ok", bits |-> Trim(acc), end |-> Len2]) = ""
\* the contract reads what it writes
Inverse == LET u == Unpack(data) IN IF what = "pack" THEN u.ok /\ u.t = t /\ u.bits = bits ELSE Msb(data, 0).bits = bits
Ended == ~mark \/ pos < Len(data)
PrintCase == done => PrintT(ToJson([what |-> what, t |-> t, bits |-> bits, data |-> data, len |-> pos]))
================================================================================
