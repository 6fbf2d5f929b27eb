------------------------------- MODULE PackRead -------------------------------
(* Builds packs entry by entry: whole objects, offset deltas on earlier entries,   *)
(* reference deltas on any entry or on one that is not in the pack. Checks an       *)
(* implementation-shaped model of collecting a delta chain (walk the offset links   *)
(* first, then follow reference links through the index) and of walking the pack.   *)
EXTENDS PackReadContract, TLC, Json

CONSTANTS MaxN, Damage,
          FixOfs,          \* an offset link found while following references is relative (FALSE: as found)
          FixCycle         \* references in a circle end (FALSE: as found)

VARIABLES es, dam, done
vars == <<es, dam, done>>

E(kind, base) == [kind |-> kind, base |-> base]
Init == es = <<>> /\ dam = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(es) < MaxN
       /\ \E e \in {E("whole", 0)} \union {E("ofs", b) : b \in 0..Len(es)} \union {E("ref", b) : b \in 0..MaxN} :
            es' = Append(es, e)
       /\ UNCHANGED <<dam, done>>
Hurt == /\ ~done /\ Damage /\ es # <<>> /\ Len(dam) < 2
        /\ \E k \in 1..Len(es), h \in {"flip", "swap", "swapcrc", "crc"} :
             /\ \A j \in 1..Len(dam) : dam[j].k # k
             /\ dam' = Append(dam, [k |-> k, how |-> h])
        /\ UNCHANGED <<es, done>>
Done == /\ ~done /\ es # <<>> /\ \A k \in 1..Len(es) : es[k].base <= Len(es)
        /\ done' = TRUE /\ UNCHANGED <<es, dam>>
Next == Add \/ Hurt \/ Done
Spec == Init /\ [][Next]_vars
PrintCase == done => PrintT(ToJson([es |-> es, dam |-> dam]))

\* ---- collecting streams as gitdb does; 999: it never ends
S == [entries |-> [k \in 1..Len(es) |-> es[k]], version |-> 2, n |-> Len(es)]
RECURSIVE Offs(_)
Offs(k) == IF es[k].kind = "ofs" /\ es[k].base # 0 THEN <<k>> \o Offs(es[k].base) ELSE <<k>>
RECURSIVE Refs(_, _, _)
Refs(k, q, fuel) ==
  IF fuel = 0 THEN Append(q, 999)
  ELSE IF es[k].kind = "whole" THEN q
  ELSE IF es[k].kind = "ref" THEN
      IF es[k].base = 0 \/ (FixCycle /\ \E j \in 1..Len(q) : q[j] = es[k].base) THEN q
      ELSE Refs(es[k].base, Append(q, es[k].base), fuel - 1)
  ELSE IF es[k].base = 0 THEN q
  ELSE LET b == IF FixOfs THEN es[k].base ELSE k - es[k].base IN
       IF b \notin 1..Len(es) THEN Append(q, 998) ELSE Refs(b, Append(q, b), fuel - 1)
Collect(k) == LET q == Offs(k) IN IF es[q[Len(q)]].kind = "ref" THEN Refs(q[Len(q)], q, 3 * MaxN) ELSE q
CollectRight == done => \A k \in 1..Len(es) :
  IF Cyclic(S, k) THEN LET q == Collect(k) IN q[Len(q)] \in 1..Len(es) /\ es[q[Len(q)]].kind # "whole"
  ELSE Collect(k) = Chain(S, k)
===============================================================================
