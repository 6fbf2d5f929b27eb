------------------------------ MODULE WriteStream -------------------------------
(* Write streams (C22): a write is hashed, compressed where the kind does so - the          *)
(* compressor keeps as much as it likes until it is flushed - and written to the sink,       *)
(* which may take all of it, a part, or fail. Closing flushes, and closes the descriptor.     *)
(* Each call is validated by the contract in the state it leaves (Allowed).                  *)
(* The flags being FALSE give the behaviour as first found:                                 *)
(*   FixFlush    a short write of what was flushed in closing went unnoticed                  *)
(*   FixRelease  a failure in closing left the descriptor open                                 *)
(* Broken kinds of implementations, each of which has to be rejected (negative controls):      *)
(*   Mutant = "unhashed"   the digest is of what arrived;  "ret" returns what arrived           *)
(*            "noflush"    closing doesn't flush                                                *)
EXTENDS WriteStreamContract, TLC, Json

CONSTANTS Kinds, MaxOps, MaxLen, MaxFaults, FixFlush, FixRelease, Mutant, Gen

VARIABLES kind, n, held, sunk, eof, fdopen, full, faults, last, st, ops, hist
vars == <<kind, n, held, sunk, eof, fdopen, full, faults, last, st, ops, hist>>
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S

Init == /\ kind \in Pick(Kinds) /\ n = 0 /\ held = 0 /\ sunk = 0 /\ eof = FALSE /\ fdopen = (kind \in {"fd", "fdz"}) /\ full = FALSE /\ faults = 0
        /\ last = "" /\ st = WriteStreamInit([kind |-> kind]) /\ ops = 0 /\ hist = <<>>

Packs == kind \in {"zip", "fdz"}
CanFail == kind \in {"flex", "fd", "fdz"}
Closes == kind \in {"zip", "fdz", "fd"}
\* what the sink does with k units: takes them, takes a part, or nothing
Fates(k) == {"go"} \union (IF CanFail /\ k > 0 /\ faults < MaxFaults THEN {"err", "short"} ELSE {})
Taken(k, w) == CASE w = "go" -> {k} [] w = "err" -> {0} [] OTHER -> 0..(k - 1)

Seen(e) == [e EXCEPT !.sink = sunk', !.eof = eof', !.full = full']
Base == [op |-> "", sink |-> 0, eof |-> FALSE, full |-> FALSE, len |-> 0, out |-> "ok", ret |-> 0, at |-> 0, v |-> 0, off |-> 0,
         want |-> 0, got |-> 0, left |-> 0, right |-> TRUE, to |-> 0, same |-> TRUE, open |-> FALSE]
Did(e) == /\ last' = WriteStreamVerdict(st, Seen(e)) /\ st' = WriteStreamApply(st, Seen(e)) /\ ops' = ops + 1

Write == /\ UNCHANGED <<kind, eof, fdopen>>
         /\ \E k \in Pick(0..MaxLen) :
              \E give \in (IF Packs THEN 0..(held + k) ELSE {k}) : \E w \in Pick(Fates(give)) : \E t \in Taken(give, w) :
                /\ n' = n + k /\ held' = (IF Packs THEN held + k - give ELSE 0) /\ sunk' = (IF kind = "sha" THEN sunk ELSE sunk + t)
                /\ full' = (w # "go") /\ faults' = faults + (IF w = "go" THEN 0 ELSE 1)
                /\ Did([Base EXCEPT !.op = "write", !.len = k, !.out = IF w = "go" THEN "ok" ELSE "OSError",
                                    !.ret = IF Mutant = "ret" THEN (IF kind = "sha" THEN k ELSE t) ELSE k])
                /\ hist' = Append(hist, [op |-> "write", k |-> k, w |-> w])
Sha == /\ kind # "fd" /\ UNCHANGED <<kind, n, held, sunk, eof, fdopen, full, faults>> /\ Did([Base EXCEPT !.op = "sha", !.at = IF Mutant = "unhashed" THEN sunk ELSE n])
       /\ hist' = Append(hist, [op |-> "sha", k |-> 0, w |-> "go"])
Other == /\ \E o \in Pick(CASE kind = "fd" -> {"tell", "read", "readall"} [] kind = "zip" -> {"seek", "badseek", "value"} [] OTHER -> {"sha"}) :
               hist' = Append(hist, [op |-> o, k |-> 0, w |-> "go"])
         /\ Gen /\ ops' = ops + 1 /\ UNCHANGED <<kind, n, held, sunk, eof, fdopen, full, faults, last, st>>
Close == /\ Closes
         /\ \E w \in Pick(Fates(IF Packs /\ Mutant # "noflush" THEN held + 1 ELSE 0)) : \E t \in Taken(IF Packs /\ Mutant # "noflush" THEN held + 1 ELSE 0, w) :
              LET told == w = "err" \/ (w = "short" /\ FixFlush) IN
              /\ sunk' = (IF Packs /\ Mutant # "noflush" THEN sunk + (IF w = "go" THEN held ELSE IF t > held THEN held ELSE t) ELSE sunk)
              /\ eof' = (w = "go" /\ Mutant # "noflush") /\ held' = 0
              /\ fdopen' = (IF told /\ ~FixRelease THEN fdopen ELSE FALSE)
              /\ full' = (w # "go") /\ faults' = faults + (IF w = "go" THEN 0 ELSE 1)
              /\ Did([Base EXCEPT !.op = "close", !.out = IF told THEN "OSError" ELSE "ok", !.open = fdopen'])
              /\ hist' = Append(hist, [op |-> "close", k |-> 0, w |-> w])
         /\ UNCHANGED <<kind, n>>
\* behind the end only questions
Ask == /\ Gen /\ kind = "zip" /\ ops' = ops + 1 /\ \E o \in Pick({"sha", "seek", "badseek", "value"}) : hist' = Append(hist, [op |-> o, k |-> 0, w |-> "go"])
       /\ UNCHANGED <<kind, n, held, sunk, eof, fdopen, full, faults, last, st>>
Going == ops < MaxOps /\ last = ""
Next == Going /\ (IF st.closed THEN Ask ELSE Write \/ Sha \/ Other \/ Close)
Spec == Init /\ [][Next]_vars

Allowed == last = ""
\* the compressor loses nothing
Conserved == ~st.failed /\ kind # "sha" => sunk + held = n \/ Mutant # ""
View == <<kind, n, held, sunk, eof, fdopen, full, faults, last, st, ops>>
PrintCase == ops = MaxOps \/ (st.closed /\ kind # "zip") => PrintT(ToJson([kind |-> kind, h |-> hist]))
================================================================================
