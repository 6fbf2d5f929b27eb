------------------------------ MODULE PackWrite -------------------------------
(* Implementation-shaped model of writing a pack: objects are pulled from an      *)
(* iterator, header and compressed data are appended chunk by chunk, the offset   *)
(* is counted, the index remembers it. The outcome is checked against the         *)
(* contract; the inputs are the cases replayed into PackEntity.write_pack.        *)
EXTENDS PackWriteContract, TLC, Json

CONSTANTS MaxObjs, Sizes, Ids, Flaws, Counts,
          FixOffset       \* FALSE: the header is not counted (negative control)

VARIABLES objs, count, st, pos, out, ofs, rows
vars == <<objs, count, st, pos, out, ofs, rows>>

HdrLen(size) == IF size < 2 THEN 1 ELSE 2
ZLen(c) == 2 + (c % 3)

Init == /\ objs = <<>> /\ count = 0 /\ st = "build" /\ pos = 0 /\ out = <<>> /\ ofs = 0 /\ rows = <<>>
Add == /\ st = "build" /\ Len(objs) < MaxObjs
       /\ \E u \in Ids, z \in Sizes, f \in Flaws :
            /\ f = "short" => z > 0
            \* one id is one object
            /\ \A k \in 1..Len(objs) : objs[k].u = u => objs[k].size = z
            /\ objs' = Append(objs, [u |-> u, fb |-> u, type |-> "blob", size |-> z, c |-> u, flaw |-> f])
       /\ UNCHANGED <<count, st, pos, out, ofs, rows>>
Start == /\ st = "build" /\ \E c \in Counts : count' = c
         /\ st' = "write" /\ pos' = 0 /\ ofs' = 12 /\ out' = <<>> /\ rows' = <<>> /\ UNCHANGED objs
Decl == IF count = 0 THEN Len(objs) ELSE count
Put == /\ st = "write" /\ pos < Len(objs) /\ pos < Decl
       /\ LET o == objs[pos + 1] IN
          IF o.flaw # "" THEN st' = "raised" /\ UNCHANGED <<pos, out, ofs, rows>>
          ELSE LET n == HdrLen(o.size) + ZLen(o.c)
                   at == IF out = <<>> THEN 12 ELSE out[Len(out)].off + out[Len(out)].len
               IN /\ out' = Append(out, [type |-> o.type, size |-> o.size, c |-> o.c, off |-> at, len |-> n, crc |-> o.c])
                  /\ rows' = Append(rows, [u |-> o.u, off |-> ofs, crc |-> o.c])
                  /\ ofs' = ofs + (IF FixOffset THEN n ELSE ZLen(o.c))
                  /\ pos' = pos + 1 /\ st' = st
       /\ UNCHANGED <<objs, count>>
End == /\ st = "write" /\ (pos = Len(objs) \/ pos = Decl)
       /\ st' = IF pos # Decl THEN "raised" ELSE "ok"
       /\ UNCHANGED <<objs, count, pos, out, ofs, rows>>
Next == Add \/ Start \/ Put \/ End
Spec == Init /\ [][Next]_vars

SortedRows == LET RECURSIVE S(_, _)
                  S(r, acc) == IF r = {} THEN acc
                               ELSE LET m == CHOOSE x \in r : \A y \in r : <<rows[x].u, x>> = <<rows[y].u, y>> \/ rows[x].u < rows[y].u \/ (rows[x].u = rows[y].u /\ x < y)
                                    IN S(r \ {m}, Append(acc, rows[m]))
              IN S(1..Len(rows), <<>>)
Cfg == [objs |-> objs, count |-> count, index |-> TRUE]
Ev == [op |-> "write", out |-> IF st = "ok" THEN "ok" ELSE "ValueError",
       pack |-> [magic |-> TRUE, version |-> 2, count |-> Decl, entries |-> out, rest |-> 0, trailer |-> TRUE],
       idx |-> [magic |-> TRUE, version |-> 2, rest |-> 0, rows |-> SortedRows, packsha |-> TRUE, trailer |-> TRUE,
                fan |-> [b \in 1..256 |-> Cardinality({k \in 1..Len(rows) : rows[k].u <= b - 1})]],
       retpack |-> TRUE, retindex |-> TRUE]
Refines == st \in {"ok", "raised"} => PackWriteVerdict(Cfg, Ev) = ""
PrintCase == st = "write" /\ pos = 0 => PrintT(ToJson([objs |-> objs, count |-> count]))
===============================================================================
