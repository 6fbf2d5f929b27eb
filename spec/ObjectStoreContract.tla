-------------------------- MODULE ObjectStoreContract -------------------------
(* Contract of the object stores (C01 loose and composite stores, C17 memory    *)
(* database and copying, C18 redirected output streams).                        *)
(*   cfg.objs     sequence of objects [id, type, size, c]: the identity git      *)
(*                gives them, and the name of their content                      *)
(*   cfg.dbs      sequence of database handles [kind, at]: at = storage used     *)
(*   cfg.nst      number of storages                                             *)
(* State: content of every storage (set of ids), the output stream installed     *)
(* in every handle (0: none), what every output stream has received.             *)
EXTENDS Integers, Sequences, FiniteSets

Ids(s, at) == s.has[at]
ObjOf(s, id) == s.objs[CHOOSE k \in 1..Len(s.objs) : s.objs[k].id = id]
Range(q) == {q[k] : k \in 1..Len(q)}

ObjectStoreInit(cfg) ==
  [objs |-> cfg.objs, dbs |-> cfg.dbs,
   has |-> [k \in 1..cfg.nst |-> {}],
   red |-> [k \in 1..Len(cfg.dbs) |-> 0],
   uses |-> [k \in 1..8 |-> 0]]        \* how often a stream was written to

\* every stream handle refers to one LooseObjectDB-like writer; memory databases refuse redirection
MetaVerdict(s, e, o) ==
  IF e.id # o.id THEN e.op \o "-wrong-id"
  ELSE IF e.type # o.type THEN e.op \o "-wrong-type"
  ELSE IF e.size # o.size THEN e.op \o "-wrong-size"
  ELSE ""

ObjectStoreVerdict(s, e) ==
  CASE e.op = "store" ->
         LET o == s.objs[e.o] IN
         IF e.out # "ok" THEN "store-raised-" \o e.out
         ELSE IF e.id # o.id THEN "store-wrong-id"
         ELSE IF ~e.same THEN "store-returned-another-instance"
         ELSE IF s.red[e.d] # 0 /\ e.sink # "exact" THEN "redirected-stream-received-" \o e.sink
         ELSE IF s.red[e.d] # 0 /\ e.enc = FALSE /\ e.sid # o.id THEN "redirected-stream-wrong-id"
         ELSE ""
    [] e.op = "has" ->
         LET o == s.objs[e.o] IN
         IF e.out # "ok" THEN "has-raised-" \o e.out
         ELSE IF e.v # (o.id \in Ids(s, s.dbs[e.d].at)) THEN
            IF e.v THEN "has-reports-absent-object" ELSE "has-misses-stored-object"
         ELSE ""
    [] e.op \in {"info", "stream"} ->
         LET o == s.objs[e.o] IN
         IF o.id \in Ids(s, s.dbs[e.d].at) THEN
            IF e.out # "ok" THEN e.op \o "-raised-" \o e.out
            ELSE IF MetaVerdict(s, e, o) # "" THEN MetaVerdict(s, e, o)
            ELSE IF e.op = "stream" /\ e.c # o.c THEN "stream-wrong-content"
            ELSE ""
         ELSE IF e.out # "BadObject" THEN e.op \o "-of-absent-object-" \o e.out ELSE ""
    [] e.op = "iter" ->
         IF e.out # "ok" THEN "enumeration-raised-" \o e.out
         ELSE IF Range(e.ids) # Ids(s, s.dbs[e.d].at) THEN
           IF Ids(s, s.dbs[e.d].at) \subseteq Range(e.ids) THEN "enumeration-invents" ELSE "enumeration-misses"
         ELSE IF Len(e.ids) # Cardinality(Range(e.ids)) THEN "enumeration-repeats"
         ELSE ""
    [] e.op = "size" ->
         IF e.out # "ok" THEN "size-raised-" \o e.out
         ELSE IF e.v # Cardinality(Ids(s, s.dbs[e.d].at)) THEN "size-wrong" ELSE ""
    [] e.op = "reopen" -> IF e.out # "ok" THEN "reopen-raised-" \o e.out ELSE ""
    [] e.op = "disk" ->
         \* files: [id, ok, ro] for everything that looks like an object; other: anything else left behind
         IF Range([k \in 1..Len(e.files) |-> e.files[k].id]) # s.has[e.at] THEN "disk-objects-differ"
         ELSE IF \E k \in 1..Len(e.files) : ~e.files[k].ok THEN "disk-object-not-its-encoded-form"
         ELSE IF \E k \in 1..Len(e.files) : ~e.files[k].ro THEN "disk-object-writable"
         ELSE IF e.other # 0 THEN "disk-temporary-left"
         ELSE ""
    [] e.op = "copy" ->
         LET src == Ids(s, s.dbs[e.d].at)
             ids == {s.objs[e.os[k]].id : k \in 1..Len(e.os)}
             new == ids \ Ids(s, s.dbs[e.to].at)
         IN IF ~(new \subseteq src) THEN
               IF e.out = "BadObject" THEN "" ELSE "copy-of-absent-" \o e.out
            ELSE IF e.out # "ok" THEN "copy-raised-" \o e.out
            ELSE IF e.n # Cardinality(new) THEN "copy-count-wrong"
            ELSE ""
    [] e.op = "setred" ->
         IF s.dbs[e.d].kind = "mem" THEN (IF e.out = "Unsupported" THEN "" ELSE "memory-redirect-" \o e.out)
         ELSE IF e.j < 0 THEN (IF e.out = "TypeError" THEN "" ELSE "unsuitable-stream-" \o e.out)
         ELSE IF e.out # "ok" THEN "redirect-raised-" \o e.out
         ELSE IF e.prev # s.red[e.d] THEN "redirect-returns-wrong-previous"
         ELSE ""
    [] e.op = "ostream" ->
         IF e.out # "ok" THEN "ostream-raised-" \o e.out
         ELSE IF e.v # s.red[e.d] THEN "ostream-wrong" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

\* ids of a copy are taken in order until one is missing in the source and in the target
RECURSIVE CopyInto(_, _, _)
CopyInto(have, src, ids) ==
  IF ids = <<>> THEN have
  ELSE IF Head(ids) \in have THEN CopyInto(have, src, Tail(ids))
  ELSE IF Head(ids) \in src THEN CopyInto(have \union {Head(ids)}, src, Tail(ids))
  ELSE have

ObjectStoreApply(s, e) ==
  CASE e.op = "store" ->
         IF s.red[e.d] # 0 THEN s ELSE [s EXCEPT !.has[s.dbs[e.d].at] = @ \union {s.objs[e.o].id}]
    [] e.op = "copy" ->
         [s EXCEPT !.has[s.dbs[e.to].at] = CopyInto(@, Ids(s, s.dbs[e.d].at), [k \in 1..Len(e.os) |-> s.objs[e.os[k]].id])]
    [] e.op = "setred" -> IF e.out = "ok" THEN [s EXCEPT !.red[e.d] = e.j] ELSE s
    [] e.op = "reopen" -> [s EXCEPT !.red[e.d] = 0]
    [] OTHER -> s

ObjectStoreEnd(s) == ""
===============================================================================
