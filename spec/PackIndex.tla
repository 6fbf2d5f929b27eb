------------------------------ MODULE PackIndex -------------------------------
(* Implementation-shaped model of lookups in one index: a fan-out table over the *)
(* first digit and a bisection of the ids, checked against the table itself for  *)
(* every set of ids; the sets are also the cases replayed into PackIndexFile.    *)
(* Ids are numbers 0..D^L-1, their digits are base D. The first digit stands for *)
(* the first byte.                                                               *)
EXTENDS PackIndexContract, TLC, Json

CONSTANTS D, L, MaxIds, FixAmbiguous,
          Places            \* abbreviations: storages an id may lie in (sets of them)

VARIABLES ids,              \* set of ids
          place,            \* id -> nonempty set of storages (abbreviation cases)
          done
vars == <<ids, place, done>>

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
U == 0..(Pow(D, L) - 1)

Init == ids = {} /\ place = <<>> /\ done = FALSE
Add == /\ ~done /\ Cardinality(ids) < MaxIds
       /\ \E u \in U : /\ \A v \in ids : v < u
                       /\ ids' = ids \union {u}
                       /\ \E ps \in (SUBSET Places) \ {{}} : place' = Append(place, [u |-> u, at |-> ps])
       /\ UNCHANGED done
Done == ~done /\ done' = TRUE /\ UNCHANGED <<ids, place>>
Next == Add \/ Done
Spec == Init /\ [][Next]_vars
PrintCase == done => PrintT(ToJson([ids |-> place]))

\* ---- the algorithm
Sorted == [k \in 1..Len(place) |-> place[k].u]
First(u) == u \div Pow(D, L - 1)
Fan(b) == Cardinality({u \in ids : First(u) <= b})

RECURSIVE Bis(_, _, _)
Bis(x, lo, hi) ==      \* position (from 0) or -1
  IF lo >= hi THEN -1
  ELSE LET mid == (lo + hi) \div 2
           m == Sorted[mid + 1]
       IN IF x < m THEN Bis(x, lo, mid) ELSE IF x = m THEN mid ELSE Bis(x, mid + 1, hi)
Lookup(x) == Bis(x, IF First(x) = 0 THEN 0 ELSE Fan(First(x) - 1), Fan(First(x)))

RECURSIVE BisLow(_, _, _)
BisLow(x, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
           m == Sorted[mid + 1]
       IN IF x < m THEN BisLow(x, lo, mid) ELSE IF x = m THEN mid ELSE BisLow(x, mid + 1, hi)

HasPrefix(u, p, n) == u \div Pow(D, L - n) = p        \* p: number of the first n digits
Partial(p, n) ==       \* position, -1 none, -2 ambiguous
  LET x == p * Pow(D, L - n)
      b == First(x)
      lo == BisLow(x, IF b = 0 THEN 0 ELSE Fan(b - 1), Fan(b))
  IN IF lo >= Len(Sorted) THEN -1
     ELSE IF ~HasPrefix(Sorted[lo + 1], p, n) THEN -1
     ELSE IF lo + 1 < Len(Sorted) /\ HasPrefix(Sorted[lo + 2], p, n) /\ FixAmbiguous THEN -2
     ELSE lo

LookupExact == \A x \in U : LET r == Lookup(x) IN IF x \in ids THEN r >= 0 /\ Sorted[r + 1] = x ELSE r = -1
PartialExact == \A n \in 1..L : \A p \in 0..(Pow(D, n) - 1) :
  LET m == {u \in ids : HasPrefix(u, p, n)}
      r == Partial(p, n)
  IN IF m = {} THEN r = -1 ELSE IF Cardinality(m) > 1 THEN r = -2 ELSE r >= 0 /\ m = {Sorted[r + 1]}
===============================================================================
