------------------------------ MODULE Descriptors ------------------------------
(* The descriptors behind the calls on a loose and a packed database (C20). A call is a   *)
(* sequence of micro steps which take and give back descriptors; any of them may fail,      *)
(* and what the call holds then is given back by its error handling. A stream of the loose   *)
(* database takes the map of its file with it until it is closed or dropped. Packs and         *)
(* indices are mapped once and stay.                                                          *)
(* The flags being FALSE are the negative controls:                                           *)
(*   FixWriter  (as found) the descriptor stayed if the last bytes could not be written          *)
(*   FixInfo    info leaves its map to itself if the header is damaged                             *)
(*   FixShare   every stream of a packed object maps the pack again                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS H, K, NCalls, MaxFaults, FixWriter, FixInfo, FixShare, Gen

VARIABLES call, at, mine, handles, maps, left, faults, out, hist
vars == <<call, at, mine, handles, maps, left, faults, out, hist>>

\* the micro steps: take f: open the file; m: map it; lose f: close it, ...
Micro(w) ==
  CASE w = "info" -> <<"open", "map", "close", "parse", "unmap">>
    [] w = "stream" -> <<"open", "map", "close", "parse", "keep">>
    [] w \in {"store", "copy"} -> <<"open", "write", "flush", "close", "move", "chmod">>
    [] w = "has" -> <<"look">>
    [] w = "iter" -> <<"opendir", "list", "closedir">>
    [] w = "pinfo" -> <<"pmap", "parse">>
    [] w = "pstream" -> <<"pmap", "parse", "pkeep">>
    [] w = "refresh" -> <<"look", "opendir", "list", "closedir">>
    [] OTHER -> <<"nothing">>
Calls == {"info", "stream", "store", "copy", "has", "iter", "pinfo", "pstream", "refresh", "read", "close", "drop"}

Init == /\ call = "" /\ at = 0 /\ mine = {} /\ handles = [h \in 1..H |-> "none"] /\ maps = [k \in 1..K |-> 0] /\ left = NCalls
        /\ faults = 0 /\ out = "" /\ hist = <<>>

Free == {h \in 1..H : handles[h] = "none"}
Open == {h \in 1..H : handles[h] \in {"loose", "packed", "closed"}}
Possible == (Calls \ {"stream", "pstream", "read", "close", "drop"}) \union (IF Free = {} THEN {} ELSE {"stream", "pstream"})
            \union (IF Open = {} THEN {} ELSE {"read", "close", "drop"})
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Begin == /\ call = "" /\ left > 0 /\ left' = left - 1 /\ out' = ""
         /\ \E w \in Pick(Possible) :
              IF w \in {"read", "close", "drop"}
              THEN \E h \in Pick(Open) :
                     /\ handles' = [handles EXCEPT ![h] = IF w = "read" THEN @ ELSE IF w = "drop" THEN "none" ELSE "closed"]
                     /\ hist' = Append(hist, [w |-> w, x |-> h]) /\ UNCHANGED <<call, at, mine, maps, faults>>
              ELSE \E k \in Pick(1..K) :
                     /\ call' = w /\ at' = 1 /\ mine' = {} /\ hist' = Append(hist, [w |-> w, x |-> k]) /\ UNCHANGED <<handles, maps, faults>>

\* the error handling of a call that fails at step s
Cleanup(s) ==
  CASE call = "info" /\ s \in {"parse", "unmap"} -> IF FixInfo THEN {} ELSE mine
    [] call \in {"store"} /\ s = "flush" -> IF FixWriter THEN {} ELSE mine
    [] OTHER -> {}
Last == hist[Len(hist)].x
Micros == /\ call # ""
          /\ LET s == Micro(call)[at]
                 done == at = Len(Micro(call))
             IN \E w \in (IF faults < MaxFaults THEN Pick({"go", "err"}) ELSE {"go"}) :
                  /\ faults' = faults + (IF w = "err" THEN 1 ELSE 0)
                  /\ IF w = "err"
                     THEN /\ mine' = Cleanup(s) /\ call' = (IF mine' = {} THEN "" ELSE "leaked") /\ out' = "raised" /\ at' = 0 /\ UNCHANGED <<handles, maps>>
                     ELSE /\ mine' = (CASE s = "open" -> mine \union {"f"} [] s = "map" -> mine \union {"m"} [] s = "opendir" -> mine \union {"d"}
                                        [] s = "close" -> mine \ {"f"} [] s = "closedir" -> mine \ {"d"} [] s \in {"unmap", "keep"} -> mine \ {"m"} [] OTHER -> mine)
                          /\ maps' = (IF s = "pmap" THEN [maps EXCEPT ![Last] = IF FixShare THEN 2 ELSE @ + 2] ELSE maps)
                          /\ handles' = (IF s \in {"keep", "pkeep"} THEN [handles EXCEPT ![CHOOSE h \in Free : TRUE] = IF s = "keep" THEN "loose" ELSE "packed"] ELSE handles)
                          /\ call' = (IF done THEN "" ELSE call) /\ at' = (IF done THEN 0 ELSE at + 1) /\ out' = (IF done THEN "ok" ELSE out)
          /\ UNCHANGED <<left, hist>>
End == Gen /\ call = "" /\ left = 0 /\ hist[Len(hist)].w # "end" /\ hist' = Append(hist, [w |-> "end", x |-> 0])
       /\ UNCHANGED <<call, at, mine, handles, maps, left, faults, out>>
Next == Begin \/ (call # "leaked" /\ Micros) \/ End
Spec == Init /\ [][Next]_vars

Sum[k \in 0..K] == IF k = 0 THEN 0 ELSE maps[k] + Sum[k - 1]
LooseFds == Cardinality(mine) + Cardinality({h \in 1..H : handles[h] = "loose"})
\* between calls
OnlyStreams == call \in {"", "leaked"} => mine = {}
Bounded == \A k \in 1..K : maps[k] <= 4
PrintCase == hist # <<>> /\ hist[Len(hist)].w = "end" => PrintT(ToJson(hist))
View == <<call, at, mine, handles, maps, left, faults, out, IF call = "" THEN 0 ELSE Last>>
================================================================================
