------------------------------ MODULE ObjectStore -----------------------------
(* The contract as a state machine: its properties are checked exhaustively,    *)
(* its histories are replayed into the real databases.                          *)
EXTENDS ObjectStoreContract, TLC, Json

CONSTANTS Objs,        \* sequence of objects
          Dbs,         \* sequence of handles
          NSt,
          Ops,         \* operations to generate
          MaxOps

VARIABLES s, hist
vars == <<s, hist>>

Init == s = ObjectStoreInit([objs |-> Objs, dbs |-> Dbs, nst |-> NSt]) /\ hist = <<>>

D == 1..Len(Dbs)
O == 1..Len(Objs)
Has(d, o) == Objs[o].id \in Ids(s, Dbs[d].at)

\* what an implementation of the contract answers
Answer(e) ==
  CASE e.op = "store" -> e @@ [out |-> "ok", id |-> Objs[e.o].id, same |-> TRUE, sink |-> "exact", sid |-> Objs[e.o].id]
    [] e.op = "has" -> e @@ [out |-> "ok", v |-> Has(e.d, e.o)]
    [] e.op \in {"info", "stream"} ->
         e @@ [out |-> IF Has(e.d, e.o) THEN "ok" ELSE "BadObject", id |-> Objs[e.o].id, type |-> Objs[e.o].type,
               size |-> Objs[e.o].size, c |-> Objs[e.o].c]
    [] e.op = "size" -> e @@ [out |-> "ok", v |-> Cardinality(Ids(s, Dbs[e.d].at))]
    [] e.op = "copy" -> e @@ [out |-> IF \A k \in 1..Len(e.os) : Has(e.d, e.os[k]) \/ Has(e.to, e.os[k]) THEN "ok" ELSE "BadObject",
               n |-> Cardinality({Objs[e.os[k]].id : k \in 1..Len(e.os)} \ Ids(s, Dbs[e.to].at))]
    [] e.op = "setred" -> e @@ [out |-> IF Dbs[e.d].kind = "mem" THEN "Unsupported" ELSE IF e.j < 0 THEN "TypeError" ELSE "ok",
               prev |-> s.red[e.d]]
    [] e.op = "ostream" -> e @@ [out |-> "ok", v |-> s.red[e.d]]
    [] OTHER -> e @@ [out |-> "ok"]

CopyPairs == {<<d, d2>> \in D \X D : Dbs[d].kind = "mem" /\ Dbs[d].at # Dbs[d2].at}

Requests ==
  UNION {
    IF "store" \in Ops THEN {[op |-> "store", d |-> d, o |-> o, enc |-> x] : d \in D, o \in O, x \in BOOLEAN} ELSE {},
    IF "has" \in Ops THEN {[op |-> "has", d |-> d, o |-> o] : d \in D, o \in O} ELSE {},
    IF "info" \in Ops THEN {[op |-> "info", d |-> d, o |-> o] : d \in D, o \in O} ELSE {},
    IF "stream" \in Ops THEN {[op |-> "stream", d |-> d, o |-> o, part |-> p] : d \in D, o \in O, p \in {0, 1}} ELSE {},
    IF "size" \in Ops THEN {[op |-> "size", d |-> d] : d \in D} ELSE {},
    IF "reopen" \in Ops THEN {[op |-> "reopen", d |-> d] : d \in {d \in D : Dbs[d].kind # "mem"}} ELSE {},
    IF "copy" \in Ops THEN {[op |-> "copy", d |-> p[1], to |-> p[2], os |-> os] : p \in CopyPairs,
                              os \in {<<o>> : o \in O} \union {<<o, o2>> : o \in O, o2 \in O} \union {[k \in 1..Len(Objs) |-> k]}} ELSE {},
    IF "setred" \in Ops THEN {[op |-> "setred", d |-> d, j |-> j] : d \in D, j \in -2..3} ELSE {},
    IF "ostream" \in Ops THEN {[op |-> "ostream", d |-> d] : d \in D} ELSE {} }

\* a stream is used for one object only: it accumulates
Fresh(e) == e.op = "store" /\ s.red[e.d] # 0 => s.uses[s.red[e.d]] = 0

Next == /\ Len(hist) < MaxOps
        /\ \E e \in Requests :
             /\ Fresh(e)
             /\ LET s2 == ObjectStoreApply(s, Answer(e))
                IN s' = IF e.op = "store" /\ s.red[e.d] # 0 THEN [s2 EXCEPT !.uses[s.red[e.d]] = @ + 1] ELSE s2
             /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars

\* ---- design properties of the contract
\* it never rejects its own answers (satisfiable)
Satisfiable == \A e \in Requests : ObjectStoreVerdict(s, Answer(e)) = ""
\* content is never lost, only stores and copies add, nothing else changes storage
Grows == [][\A k \in 1..NSt : s.has[k] \subseteq s'.has[k]]_vars
\* a redirected handle never adds
RedirectTouchesNothing ==
  [][hist' # hist /\ hist'[Len(hist')].op = "store" /\ s.red[hist'[Len(hist')].d] # 0 => s'.has = s.has]_vars
NoState == TRUE
PrintHist == Len(hist) = MaxOps => PrintT(ToJson(hist))
StateView == <<s, Len(hist)>>
===============================================================================
