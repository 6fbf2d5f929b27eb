---------------------------- MODULE ObjectStoreGen ----------------------------
(* Concrete constants for ObjectStore (TLC configurations cannot hold records)  *)
EXTENDS ObjectStore
Obj(k) == [id |-> "i" \o ToString(k), type |-> "blob", size |-> k, c |-> "c" \o ToString(k)]
\* the last object is the first one again
Objs2 == <<Obj(1), Obj(1)>>
Objs3 == <<Obj(1), Obj(2), Obj(1)>>
Objs4 == <<Obj(1), Obj(2), Obj(3), Obj(1)>>
DbsLoose  == <<[kind |-> "loose", at |-> 1], [kind |-> "git", at |-> 1]>>
DbsLoose3 == <<[kind |-> "loose", at |-> 1], [kind |-> "loose", at |-> 1], [kind |-> "git", at |-> 1]>>
DbsMem    == <<[kind |-> "mem", at |-> 1], [kind |-> "loose", at |-> 2], [kind |-> "mem", at |-> 3]>>
DbsMem4   == <<[kind |-> "mem", at |-> 1], [kind |-> "loose", at |-> 2], [kind |-> "git", at |-> 3], [kind |-> "mem", at |-> 4]>>
DbsRed    == <<[kind |-> "loose", at |-> 1], [kind |-> "git", at |-> 1], [kind |-> "mem", at |-> 2]>>
===============================================================================
