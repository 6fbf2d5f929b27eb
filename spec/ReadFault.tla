------------------------------ MODULE ReadFault -------------------------------
(* A database over parts (packs) which it gets to know when it is asked first, and    *)
(* again when it is refreshed. Each of the steps of that may fail (C24).               *)
(* The flags being FALSE are the negative controls, all of them as found:                *)
(*   FixRecord  the time of the directory was noted before it had been read                *)
(*   FixPartial what had been read until the failure was taken for everything               *)
(*   FixList    a directory which couldn't be listed was taken for an empty one               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS P, MaxOps, MaxFaults, FixRecord, FixPartial, FixList, Gen

VARIABLES disk, stamp, loaded, known, rec, gone, exact, faults, ans, hist
vars == <<disk, stamp, loaded, known, rec, gone, exact, faults, ans, hist>>

C == INSTANCE ReadFaultContract
S == [has |-> disk, ever |-> P, exact |-> exact, kind |-> "packed"]
None == [op |-> "change", has |-> <<>>]

Init == /\ disk \in (IF Gen THEN {P} ELSE SUBSET P) /\ stamp = 1 /\ loaded = FALSE /\ known = {} /\ rec = 0 /\ gone = FALSE /\ exact = TRUE
        /\ faults = 0 /\ ans = None /\ hist = <<>>

\* reading the directory with the f-th step failing (0: none); -> what is known then, and whether it raised
Looks(k0, f) ==
  IF gone THEN {<<k0, TRUE>>}
  ELSE IF f = 0 THEN {<<disk, FALSE>>}
  ELSE IF f = 1 THEN (IF FixList THEN {<<k0, TRUE>>} ELSE {<<{}, FALSE>>})
  ELSE {<<k0 \union n, TRUE>> : n \in {x \in SUBSET (disk \ k0) : Cardinality(x) < Cardinality(disk \ k0)}}

Note(w, x, f) == hist' = Append(hist, [w |-> w, x |-> x, f |-> f])
Faults == IF faults < MaxFaults THEN 0..(IF Gen THEN 9 ELSE 2) ELSE {0}
Pick(A) == IF Gen THEN {RandomElement(A)} ELSE A
\* an observation as the contract has it, and what follows for it
See(e) == /\ ans' = e /\ exact' = C!ReadFaultApply(S, e).exact

Refresh == \E force \in Pick(BOOLEAN), f \in Pick(Faults) :
  LET idle == ~gone /\ ~force /\ stamp <= rec
      word == IF gone THEN "gone" ELSE IF f > 0 THEN "call" ELSE "" IN
  /\ faults' = faults + (IF f > 0 THEN 1 ELSE 0)
  /\ Note(IF force THEN "force" ELSE "plain", 0, f)
  /\ UNCHANGED <<disk, stamp, gone>>
  /\ IF idle /\ loaded
     THEN /\ UNCHANGED <<known, rec, loaded>> /\ See([op |-> "refresh", fault |-> word, out |-> IF f > 0 THEN "OSError" ELSE "ok"])
     ELSE \E x \in Looks(known, f) :
          /\ known' = x[1]
          /\ loaded' = (loaded \/ ~x[2] \/ ~FixPartial)
          /\ rec' = (IF gone THEN rec ELSE IF x[2] /\ FixRecord THEN rec ELSE stamp)
          /\ See([op |-> "refresh", fault |-> word, out |-> IF x[2] THEN "OSError" ELSE "ok"])

Query == \E o \in Pick(P), f \in Pick(Faults) :
  LET word == IF gone THEN "gone" ELSE IF f > 0 THEN "call" ELSE ""
      say(k, raised) == See([op |-> "q", how |-> "has", o |-> o, fault |-> word, out |-> IF raised THEN "OSError" ELSE "ok",
                             v |-> IF o \in k THEN "yes" ELSE "no"]) IN
  /\ faults' = faults + (IF f > 0 THEN 1 ELSE 0)
  /\ Note("q", o, f)
  /\ UNCHANGED <<disk, stamp, gone>>
  /\ IF loaded THEN /\ UNCHANGED <<known, rec, loaded>> /\ say(known, f > 0)
     ELSE \E x \in Looks({}, f) :
          /\ loaded' = (~x[2] \/ ~FixPartial)
          /\ known' = (IF x[2] /\ FixPartial THEN {} ELSE x[1])
          /\ rec' = (IF gone THEN rec ELSE IF x[2] /\ FixRecord THEN rec ELSE stamp)
          /\ say(x[1], x[2])

Change == ~gone /\ \E p \in Pick(P) :
  /\ UNCHANGED <<loaded, known, rec, gone, faults>>
  /\ disk' = (IF p \in disk THEN disk \ {p} ELSE disk \union {p})
  /\ stamp' = stamp + 1
  /\ exact' = FALSE /\ ans' = None
  /\ Note("change", p, 0)

Vanish == /\ UNCHANGED <<disk, stamp, loaded, known, rec, faults, exact>>
          /\ gone' = ~gone /\ ans' = None
          /\ Note(IF gone THEN "back" ELSE "gone", 0, 0)

End == Gen /\ Len(hist) >= MaxOps /\ hist[Len(hist)].w # "end" /\ Note("end", 0, 0)
       /\ UNCHANGED <<disk, stamp, loaded, known, rec, gone, exact, faults, ans>>
Which == RandomElement(1..10)
Next == \/ Len(hist) < MaxOps /\ ~Gen /\ (Refresh \/ Query \/ Change \/ Vanish)
        \/ Len(hist) < MaxOps /\ Gen /\ (LET c == Which IN IF gone /\ c > 6 THEN Vanish ELSE IF c <= 5 THEN Query ELSE IF c <= 7 THEN Refresh ELSE IF c <= 9 /\ ~gone THEN Change ELSE Vanish)
        \/ End
Spec == Init /\ [][Next]_vars

\* when it has to know, it knows: it has loaded everything, or will
Knows == exact /\ loaded /\ ~gone => known = disk
\* and what it said was allowed (judged in the state the operation left: neither disk nor exactness of a clean operation change in it)
Allowed == LET e == ans IN (e.op = "q" /\ e.fault = "") => C!ReadFaultVerdict(S, e) = ""
PrintCase == hist # <<>> /\ hist[Len(hist)].w = "end" => PrintT(ToJson(hist))
View == <<disk, stamp - rec, loaded, known, gone, exact, faults, ans, Len(hist)>>
===============================================================================
