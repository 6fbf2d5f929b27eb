------------------------------- MODULE Contents ---------------------------------
(* Contents of files and copies of streams (C26), one action per system call, read or write.   *)
(* A file is mapped if that is allowed and succeeds (an empty one can't be), else it is read       *)
(* until nothing comes any more; each read provides as little as it likes, or fails.                *)
(* A copy asks its source for a chunk, or what is missing, until it has everything or the source     *)
(* ends.                                                                                       *)
(* As found: FixLoop = FALSE: a single read was taken for everything; FixEmpty = FALSE: an empty file *)
(* raised; FixShort = FALSE: a copy ended at the first piece smaller than asked for;                 *)
(* FixNone = FALSE: a copy of nothing asked for 0 bytes, which means everything to most streams.       *)
(* Mutants (negative controls): "greedy" asks for whole chunks; "again" passes a piece on twice.       *)
EXTENDS ContentsContract, TLC, Json

CONSTANTS Kinds, MaxSize, MaxChunk, MaxFaults, MaxOps, FixLoop, FixEmpty, FixShort, FixNone, Mutant, Gen

VARIABLES kind, way, size, src, chunk, pc, have, done, faults, hit, last, st, ops, hist
vars == <<kind, way, size, src, chunk, pc, have, done, faults, hit, last, st, ops, hist>>
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
\* way: by path or descriptor, as stream, mapping allowed
Ways == [path : BOOLEAN, stream : BOOLEAN, map : BOOLEAN]
At(e, off) == [e EXCEPT !.at = <<off>>]
Base == [op |-> "", out |-> "ok", len |-> 0, missing |-> FALSE, hit |-> FALSE, fds |-> 0, kept |-> TRUE, n |-> 0, a |-> 0, b |-> 0, at |-> <<>>, to |-> 0, v |-> 0, gave |-> 0, ret |-> 0]
Did(e) == last' = ContentsVerdict(st, e) /\ st' = ContentsApply(st, e)

Init == /\ pc = "start" /\ kind = "" /\ way = [path |-> FALSE, stream |-> FALSE, map |-> FALSE] /\ size = 0 /\ src = 0 /\ chunk = 0
        /\ have = 0 /\ done = 0 /\ faults = 0 /\ hit = FALSE /\ last = "" /\ ops = 0 /\ hist = <<>>
        /\ st = ContentsInit([kind |-> "", size |-> 0, chunk |-> 0, len |-> 0, head |-> 0])
Start == /\ pc = "start" /\ UNCHANGED <<have, done, faults, hit, last, ops, hist>>
         /\ kind' \in Pick(Kinds) /\ way' \in (IF kind' = "file" THEN Pick(Ways) ELSE {way}) /\ size' \in Pick(0..MaxSize)
         /\ src' \in (IF kind' = "copy" THEN Pick(0..(MaxSize + 1)) ELSE {0}) /\ chunk' \in (IF kind' = "copy" THEN Pick(1..MaxChunk) ELSE {0})
         /\ pc' = (CASE kind' = "file" -> "open" [] kind' = "mem" -> "fill" [] OTHER -> "ask")
         /\ st' = ContentsInit([kind |-> kind', size |-> size', chunk |-> chunk', len |-> src', head |-> 0])

Fault(w) == faults' = faults + 1 /\ faults < MaxFaults /\ hist' = Append(hist, [op |-> w, x |-> 0, y |-> 0])
Fixed == UNCHANGED <<kind, way, size, src, chunk>>

\* ---- a file
Open == /\ pc = "open" /\ Fixed /\ UNCHANGED <<have, done, hit, last, st, ops, faults, hist>> /\ pc' = IF way.map THEN "map" ELSE "read"
OpenFails == /\ pc = "open" /\ way.path /\ Fixed /\ UNCHANGED <<have, done, ops>> /\ Fault("openread") /\ hit' = TRUE /\ pc' = "gone"
             /\ Did([Base EXCEPT !.op = "open", !.out = "OSError", !.hit = TRUE])
Map == /\ pc = "map" /\ size > 0 /\ Fixed /\ UNCHANGED <<done, hit, ops, faults, hist>> /\ have' = size /\ pc' = "use"
       /\ Did([Base EXCEPT !.op = "open", !.len = size, !.fds = 1])
MapEmpty == /\ pc = "map" /\ size = 0 /\ Fixed /\ UNCHANGED <<have, done, hit, ops, faults, hist>>
            /\ IF FixEmpty THEN pc' = "read" /\ UNCHANGED <<last, st>>
               ELSE pc' = "gone" /\ Did([Base EXCEPT !.op = "open", !.out = "ValueError"])
MapFails == /\ pc = "map" /\ Fixed /\ UNCHANGED <<have, done, hit, last, st, ops>> /\ Fault("mmap") /\ pc' = "read"
Read == /\ pc = "read" /\ have < size /\ Fixed /\ UNCHANGED <<done, hit, last, st, ops>>
        /\ \E k \in Pick({size - have} \union (IF faults < MaxFaults THEN 1..(size - have) ELSE {})) :
             /\ have' = have + k /\ faults' = faults + (IF k < size - have THEN 1 ELSE 0)
             /\ hist' = (IF k < size - have THEN Append(hist, [op |-> "short", x |-> k, y |-> 0]) ELSE hist)
             /\ pc' = IF FixLoop THEN "read" ELSE "ready"
ReadFails == /\ pc = "read" /\ Fixed /\ UNCHANGED <<have, done, ops>> /\ Fault("read") /\ hit' = TRUE /\ pc' = "gone"
             /\ Did([Base EXCEPT !.op = "open", !.out = "OSError", !.hit = TRUE])
ReadEnd == /\ (pc = "read" /\ have = size) \/ pc = "ready"
           /\ Fixed /\ UNCHANGED <<have, done, hit, ops, faults, hist>> /\ pc' = "use" /\ Did([Base EXCEPT !.op = "open", !.len = have])

\* ---- memory
Fill == /\ pc = "fill" /\ Fixed /\ UNCHANGED <<done, hit, ops, faults>>
        /\ IF have = size THEN pc' = "use" /\ UNCHANGED have /\ hist' = hist /\ Did([Base EXCEPT !.op = "seek"])
           ELSE \E k \in Pick(1..(size - have)) : pc' = "fill" /\ have' = have + k /\ Did([Base EXCEPT !.op = "fill", !.n = k])
                                                  /\ hist' = Append(hist, [op |-> "fill", x |-> k, y |-> 0])

\* ---- both of them in use; pos is in st
Streams == kind = "mem" \/ way.stream
Use == /\ pc = "use" /\ ops < MaxOps /\ Fixed /\ UNCHANGED <<pc, have, done, hit, faults>> /\ ops' = ops + 1
       /\ \/ \E a \in Pick((-size - 1)..(size + 1)) : \E b \in Pick((-size - 1)..(size + 1)) :
               LET l == Bound(a, have)
                   u == Bound(b, have)
               IN /\ Did(At([Base EXCEPT !.op = "slice", !.a = a, !.b = b, !.len = CMax(0, u - l)], l))
                  /\ hist' = Append(hist, [op |-> "slice", x |-> a, y |-> b])
          \/ \E a \in Pick((-size - 1)..size) :
               /\ Did(At([Base EXCEPT !.op = "index", !.a = a, !.out = IF a >= -size /\ a < size THEN "ok" ELSE "IndexError", !.len = 1], Bound(a, have)))
               /\ hist' = Append(hist, [op |-> "index", x |-> a, y |-> 0])
          \/ /\ Streams /\ \E p \in Pick(0..size) : Did([Base EXCEPT !.op = "seek", !.to = p]) /\ hist' = Append(hist, [op |-> "seek", x |-> p, y |-> 0])
          \/ /\ Streams /\ Did([Base EXCEPT !.op = "tell", !.v = st.pos]) /\ hist' = Append(hist, [op |-> "tell", x |-> 0, y |-> 0])
          \/ /\ Did([Base EXCEPT !.op = "len", !.v = have]) /\ hist' = Append(hist, [op |-> "len", x |-> 0, y |-> 0])
          \/ /\ Streams /\ \E n \in Pick(-1..(size + 1)) :
               LET k == IF n < 0 THEN have - st.pos ELSE CMin(n, have - st.pos)
               IN /\ Did(At([Base EXCEPT !.op = "read", !.n = n, !.len = k], st.pos)) /\ hist' = Append(hist, [op |-> "read", x |-> n, y |-> 0])

\* ---- a copy
Left == size - done
Ask == /\ pc = "ask" /\ Fixed /\ UNCHANGED <<hit, ops, faults>>
       /\ IF Left = 0 /\ FixNone THEN pc' = "gone" /\ UNCHANGED <<have, done, hist>> /\ Did([Base EXCEPT !.op = "end", !.ret = done])
          ELSE LET n == IF Mutant = "greedy" THEN chunk ELSE CMin(chunk, Left)
                   most == IF n = 0 THEN src - have ELSE CMin(n, src - have)
               IN \E k \in Pick(IF most = 0 THEN {0} ELSE 1..most) :
                    /\ have' = have + k /\ done' = k /\ pc' = (IF k = 0 THEN "stop" ELSE IF k < n /\ ~FixShort THEN "lastput" ELSE "put")
                    /\ UNCHANGED hist /\ Did([Base EXCEPT !.op = "ask", !.n = n, !.gave = k])
\* (done holds the piece between the two)
Put == /\ pc \in {"put", "lastput", "put2"} /\ Fixed /\ UNCHANGED <<have, hit, ops, faults, hist>>
       /\ Did(At([Base EXCEPT !.op = "put", !.len = done], IF pc = "put2" THEN have - done ELSE have - done))
       /\ IF Mutant = "again" /\ pc = "put" THEN pc' = "put2" /\ UNCHANGED done
          ELSE done' = have /\ pc' = IF pc = "lastput" THEN "stop" ELSE "ask"
CopyFails == /\ pc \in {"ask", "put"} /\ kind = "copy" /\ ~hit /\ Fixed /\ UNCHANGED <<have, done, ops>> /\ Fault("fail") /\ hit' = TRUE /\ pc' = "failed"
             /\ Did([Base EXCEPT !.op = "fail"])
Failed == /\ pc = "failed" /\ Fixed /\ UNCHANGED <<have, done, ops, hit, faults, hist>> /\ pc' = "gone" /\ Did([Base EXCEPT !.op = "end", !.out = "OSError"])
Stop == /\ pc = "stop" /\ Fixed /\ UNCHANGED <<have, done, hit, ops, faults, hist>> /\ pc' = "gone" /\ Did([Base EXCEPT !.op = "end", !.ret = have])

Next == last = "" /\ (Start \/ Open \/ OpenFails \/ Map \/ MapEmpty \/ MapFails \/ Read \/ ReadFails \/ ReadEnd \/ Fill \/ Use \/ Ask \/ Put \/ CopyFails \/ Failed \/ Stop)
Spec == Init /\ [][Next]_vars

Allowed == last = ""
View == <<kind, way, size, src, chunk, pc, have, done, faults, hit, last, st, ops>>
PrintCase == (pc = "use" /\ ops = MaxOps) \/ pc = "gone" =>
  PrintT(ToJson([kind |-> kind, way |-> way, size |-> size, src |-> src, chunk |-> chunk, h |-> hist]))
================================================================================
