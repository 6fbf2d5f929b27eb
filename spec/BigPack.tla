-------------------------------- MODULE BigPack --------------------------------
(* Reading from packs larger than what is mapped at once (C21).                     *)
(* A file of L units is seen through regions the memory manager maps on demand: of    *)
(* at most W units, starting at page boundaries, never overlapping, kept for later     *)
(* use or dropped while unused; or through one region over all of it (Manager =        *)
(* "static"). Reading takes what lies between the wanted position and the end of the    *)
(* region the cursor is in. Entries are [off, len, base]; base: the entry a delta        *)
(* applies to (0: none); reading a delta reads its bases.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS L, W, P, MaxEntries, MaxLen, MaxOps, Manager, Gen

VARIABLES es, regs, cur, ops, right, stage
vars == <<es, regs, cur, ops, right, stage>>

Min2(a, b) == IF a < b THEN a ELSE b
Pick(S) == IF Gen THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
\* the file ends with a footer of one unit
EndOf(q) == IF q = <<>> THEN 0 ELSE q[Len(q)].off + q[Len(q)].len
Init == es = <<>> /\ regs = {} /\ cur = <<>> /\ ops = <<>> /\ right = TRUE /\ stage = "layout"

Place(off, len, base) == /\ off + len <= L - 1
                         /\ es' = Append(es, [off |-> off, len |-> len, base |-> base])
Layout == /\ stage = "layout" /\ Len(es) < MaxEntries
          /\ IF Gen
             THEN \E off \in {EndOf(es) + RandomElement({0, 0, 1, 2, 3, 4, 7})} : \E len \in {RandomElement(1..MaxLen)} :
                  \E base \in {RandomElement(0..Len(es))} : Place(IF es = <<>> THEN 0 ELSE off, len, base)
             ELSE \E off \in EndOf(es)..(L - 2) : \E len \in 1..MaxLen : \E base \in 0..Len(es) :
                  (es = <<>> => off = 0) /\ Place(off, len, base)
          /\ UNCHANGED <<regs, cur, ops, right, stage>>
Laid == stage = "layout" /\ es # <<>> /\ (Gen => Len(es) >= 3) /\ stage' = "use" /\ UNCHANGED <<es, regs, cur, ops, right>>

\* ---- the memory manager: regions are <<begin, end>>
Includes(r, o) == r # <<>> /\ r[1] <= o /\ o < r[2]
AlignDown(o) == (o \div P) * P
AlignUp(o) == ((o + P - 1) \div P) * P
Obtain(rs, o) ==
  IF Manager = "static" THEN <<0, L>>
  ELSE IF \E r \in rs : Includes(r, o) THEN CHOOSE r \in rs : Includes(r, o)
  ELSE LET rights == {r[1] : r \in {x \in rs : x[1] > o}}
           rt == IF rights = {} THEN L ELSE CHOOSE x \in rights : \A y \in rights : x <= y
           b == AlignDown(o)
           size == IF o + W > rt THEN rt - o ELSE W
           e == AlignUp(size + (o - b)) + b
       IN <<b, Min2(e, rt)>>
\* moving the cursor: it stays in its region if that includes the position
Moved(rs, c, o) == IF Includes(c, o) THEN c ELSE Obtain(rs, o)
Available(r, o) == IF Manager = "static" THEN r[2] - o ELSE Min2(W, r[2] - o)

RECURSIVE ReadChain(_, _, _, _)
\* [rs, c, ok]: reading entry k and the entries below it
ReadChain(rs, c, k, ok) ==
  LET e == es[k] r == Moved(rs, c, e.off)
      o2 == ok /\ Available(r, e.off) >= e.len
  IN IF e.base = 0 THEN [rs |-> rs \union {r}, c |-> r, ok |-> o2]
     ELSE ReadChain(rs \union {r}, r, e.base, o2)

Used(op) == ops' = Append(ops, op)
Read(k) == LET x == ReadChain(regs, cur, k, TRUE) IN
           /\ regs' = x.rs /\ cur' = x.c /\ right' = x.ok /\ Used([op |-> "read", k |-> k]) /\ UNCHANGED <<es, stage>>
Footer == LET r == Moved(regs, cur, L - 1) IN
          /\ regs' = regs \union {r} /\ cur' = r /\ right' = (Available(r, L - 1) >= 1) /\ Used([op |-> "footer", k |-> 0]) /\ UNCHANGED <<es, stage>>
\* the whole of the pack as one map: tells where the last entry ends
Data == LET r == Moved(regs, cur, 0) IN
        /\ regs' = regs \union {r} /\ cur' = r /\ right' = (r = <<0, L>>) /\ Used([op |-> "data", k |-> 0]) /\ UNCHANGED <<es, stage>>
\* walking from entry k to the end
Walk(k) == LET q == {j \in 1..Len(es) : j >= k}
               r == IF Manager = "static" THEN <<0, L>> ELSE Moved(regs, cur, es[k].off) IN
           /\ (\A j \in q : IF j = k THEN TRUE ELSE es[j].off = es[j - 1].off + es[j - 1].len)
           /\ es[Len(es)].off + es[Len(es)].len = L - 1
           /\ regs' = regs \union {r} /\ cur' = r
           /\ right' = (\A j \in q : LET r2 == Moved(regs', r, es[j].off) IN Available(r2, es[j].off) >= es[j].len)
           /\ Used([op |-> "walk", k |-> k]) /\ UNCHANGED <<es, stage>>
\* unused regions go, the cursor may as well
Collect == /\ regs' = (IF cur = <<>> THEN {} ELSE {cur}) /\ right' = TRUE /\ Used([op |-> "collect", k |-> 0]) /\ UNCHANGED <<es, cur, stage>>
Reopen == /\ cur' = <<>> /\ right' = TRUE /\ Used([op |-> "reopen", k |-> 0]) /\ UNCHANGED <<es, regs, stage>>

Use == /\ stage = "use" /\ Len(ops) < MaxOps
       /\ IF Gen THEN LET k == RandomElement(1..Len(es)) z == RandomElement(1..12) IN
               IF z <= 7 THEN Read(k) ELSE IF z = 8 THEN Footer ELSE IF z = 9 THEN Data ELSE IF z = 10 THEN Collect ELSE IF z = 11 THEN Reopen
               ELSE Read(Len(es))
          ELSE (\E k \in 1..Len(es) : Read(k) \/ Walk(k)) \/ Footer \/ Data \/ Collect \/ Reopen
End == stage = "use" /\ Len(ops) = MaxOps /\ stage' = "end" /\ UNCHANGED <<es, regs, cur, ops, right>>
Next == Layout \/ Laid \/ Use \/ End
Spec == Init /\ [][Next]_vars

\* everything wanted was there
Whole == right
View == <<es, regs, cur, Len(ops), right, stage>>
PrintCase == stage = "end" => PrintT(ToJson([es |-> es, ops |-> ops, L |-> L, W |-> W]))
================================================================================
