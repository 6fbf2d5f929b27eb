------------------------------ MODULE LooseWrite -------------------------------
(* Processes storing loose objects in one directory (C02), a file-system call per    *)
(* step: create a temporary file, write, close, make the directory, look whether the  *)
(* object is there, rename or drop the temporary file, make it read-only. Any call may *)
(* fail, any write may be short, and a process may die at any step.                     *)
(* The flags being FALSE give the behaviour as first found:                              *)
(*   FixShort  copying an encoded object did not notice short writes                      *)
(*   FixClean  the temporary file stayed if the directory could not be made or the         *)
(*             file not be renamed                                                         *)
(*   FixClose  the descriptor stayed open if the last bytes could not be written           *)
(*   FixSource a stream ending before its announced size was not noticed                    *)
(* src: what is to be stored cannot be read; ends: it is shorter than announced              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs, Objs, NCalls, NWrites, MaxFaults, MaxCrashes, Whats,
          FixShort, FixClean, FixClose, FixSource, Gen

VARIABLES pc, call, left, nw, lost, tmp, fd, vis, ro, out, faults, crashes, unclean, faulted, seen, hist
vars == <<pc, call, left, nw, lost, tmp, fd, vis, ro, out, faults, crashes, unclean, faulted, seen, hist>>
fsv == <<nw, lost, tmp, fd, vis, ro>>

None == [what |-> "", o |-> 0]
Init == /\ pc = [p \in Procs |-> "idle"] /\ call = [p \in Procs |-> None] /\ left = [p \in Procs |-> NCalls]
        /\ nw = [p \in Procs |-> 0] /\ lost = [p \in Procs |-> FALSE] /\ tmp = [p \in Procs |-> FALSE] /\ fd = [p \in Procs |-> FALSE]
        /\ vis = [o \in Objs |-> "none"] /\ ro = [o \in Objs |-> FALSE] /\ out = [p \in Procs |-> ""]
        /\ faults = 0 /\ crashes = 0 /\ unclean = {} /\ faulted = {} /\ seen = [p \in Procs |-> FALSE]
        /\ hist = <<>>

Writing == {"store", "copy"}
Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ \E w \in (IF Gen THEN {RandomElement(Whats)} ELSE Whats) : \E o \in (IF Gen THEN {RandomElement(Objs)} ELSE Objs) :
                 /\ call' = [call EXCEPT ![p] = [what |-> w, o |-> o]]
                 /\ pc' = [pc EXCEPT ![p] = IF w \in Writing THEN "create" ELSE "look"]
                 /\ seen' = [seen EXCEPT ![p] = vis[o] = "right"]
                 /\ hist' = Append(hist, [p |-> p, w |-> w, o |-> o])
            /\ nw' = [nw EXCEPT ![p] = 0] /\ lost' = [lost EXCEPT ![p] = FALSE] /\ out' = [out EXCEPT ![p] = ""]
            /\ UNCHANGED <<tmp, fd, vis, ro, faults, crashes, unclean, faulted>>

\* what may happen to a call; Gen: mostly nothing
Ws(p) == {"go"} \union (IF faults < MaxFaults THEN {"err"} ELSE {}) \union (IF crashes < MaxCrashes THEN {"crash"} ELSE {})
         \union (IF faults < MaxFaults /\ pc[p] \in {"write", "flush", "eflush"} THEN {"short"} ELSE {})
         \union (IF faults < MaxFaults /\ pc[p] = "write" THEN {"src"} \union (IF call[p].what = "store" THEN {"ends"} ELSE {}) ELSE {})
Choice(p) == IF Gen THEN (IF RandomElement(1..6) = 1 THEN {RandomElement(Ws(p))} ELSE {"go"}) ELSE Ws(p)

Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Ret(p, how) == pc' = [pc EXCEPT ![p] = "result"] /\ out' = [out EXCEPT ![p] = how]
Keep == UNCHANGED out

O(p) == call[p].o
\* the effects of the calls: [nw, lost, tmp, fd, vis, ro, pc, out] left as they are unless said otherwise
Create(p, w) == IF w = "err" THEN Ret(p, "raised") /\ UNCHANGED fsv
                ELSE tmp' = [tmp EXCEPT ![p] = TRUE] /\ fd' = [fd EXCEPT ![p] = TRUE] /\ Goto(p, "write") /\ Keep /\ UNCHANGED <<nw, lost, vis, ro>>
Write(p, w) == IF w \in {"err", "src"} \/ (w = "ends" /\ call[p].what = "store" /\ FixSource) \/ (w = "short" /\ (call[p].what = "store" \/ FixShort))
               THEN Goto(p, IF call[p].what = "store" THEN "eflush" ELSE "eclose") /\ lost' = [lost EXCEPT ![p] = TRUE] /\ Keep /\ UNCHANGED <<nw, tmp, fd, vis, ro>>
               ELSE /\ nw' = [nw EXCEPT ![p] = @ + 1] /\ lost' = [lost EXCEPT ![p] = @ \/ w \in {"short", "ends"}]
                    /\ Goto(p, IF nw[p] + 1 < NWrites /\ w # "ends" THEN "write" ELSE IF call[p].what = "store" THEN "flush" ELSE "close")
                    /\ Keep /\ UNCHANGED <<tmp, fd, vis, ro>>
Flush(p, w) == IF w \in {"err", "short"}
               THEN Goto(p, IF FixClose THEN "eclose" ELSE "eunlink") /\ lost' = [lost EXCEPT ![p] = TRUE] /\ Keep /\ UNCHANGED <<nw, tmp, fd, vis, ro>>
               ELSE Goto(p, "close") /\ Keep /\ UNCHANGED fsv
\* a failing close does close
Close(p, w) == fd' = [fd EXCEPT ![p] = FALSE] /\ Goto(p, IF w = "err" THEN "eunlink" ELSE "mkdir") /\ Keep /\ UNCHANGED <<nw, lost, tmp, vis, ro>>
Eflush(p, w) == /\ Goto(p, IF w = "go" \/ FixClose THEN "eclose" ELSE "eunlink") /\ Keep /\ UNCHANGED fsv
Eclose(p, w) == fd' = [fd EXCEPT ![p] = FALSE] /\ Goto(p, "eunlink") /\ Keep /\ UNCHANGED <<nw, lost, tmp, vis, ro>>
Eunlink(p, w) == /\ tmp' = [tmp EXCEPT ![p] = @ /\ w = "err"] /\ Ret(p, "raised") /\ UNCHANGED <<nw, lost, fd, vis, ro>>
Mkdir(p, w) == IF w = "err" THEN (IF FixClean THEN Goto(p, "eunlink") /\ Keep ELSE Ret(p, "raised")) /\ UNCHANGED fsv
               ELSE Goto(p, "isfile") /\ Keep /\ UNCHANGED fsv
\* not being able to look counts as not being there
Isfile(p, w) == Goto(p, IF w = "go" /\ vis[O(p)] # "none" THEN "drop" ELSE "rename") /\ Keep /\ UNCHANGED fsv
Drop(p, w) == IF w = "err" THEN (IF FixClean THEN Goto(p, "eunlink") /\ Keep ELSE Ret(p, "raised")) /\ UNCHANGED fsv
              ELSE tmp' = [tmp EXCEPT ![p] = FALSE] /\ Goto(p, "chmod") /\ Keep /\ UNCHANGED <<nw, lost, fd, vis, ro>>
Rename(p, w) == IF w = "err" THEN (IF FixClean THEN Goto(p, "eunlink") /\ Keep ELSE Ret(p, "raised")) /\ UNCHANGED fsv
                ELSE /\ tmp' = [tmp EXCEPT ![p] = FALSE] /\ Goto(p, "chmod") /\ Keep
                     /\ vis' = [vis EXCEPT ![O(p)] = IF lost[p] THEN "bad" ELSE "right"] /\ ro' = [ro EXCEPT ![O(p)] = FALSE] /\ UNCHANGED <<nw, lost, fd>>
\* refused often enough, the call gives up
Chmod(p, w) == IF w = "err" THEN Ret(p, "raised") /\ UNCHANGED fsv
               ELSE ro' = [ro EXCEPT ![O(p)] = TRUE] /\ Ret(p, "ok") /\ UNCHANGED <<nw, lost, tmp, fd, vis>>
Lookup(p, w) == Ret(p, IF w = "go" /\ vis[O(p)] # "none" THEN "found" ELSE "absent") /\ UNCHANGED fsv

Effect(p, w) ==
  CASE pc[p] = "create" -> Create(p, w) [] pc[p] = "write" -> Write(p, w) [] pc[p] = "flush" -> Flush(p, w)
    [] pc[p] = "close" -> Close(p, w) [] pc[p] = "mkdir" -> Mkdir(p, w) [] pc[p] = "isfile" -> Isfile(p, w)
    [] pc[p] = "drop" -> Drop(p, w) [] pc[p] = "rename" -> Rename(p, w) [] pc[p] = "chmod" -> Chmod(p, w)
    [] pc[p] = "eflush" -> Eflush(p, w) [] pc[p] = "eclose" -> Eclose(p, w) [] pc[p] = "eunlink" -> Eunlink(p, w)
    [] OTHER -> Lookup(p, w)

Calls == {"create", "write", "flush", "close", "mkdir", "isfile", "drop", "rename", "chmod", "eflush", "eclose", "eunlink", "look"}
Step(p) == /\ pc[p] \in Calls
           /\ \E w \in Choice(p) :
                /\ hist' = Append(hist, [p |-> p, w |-> w, o |-> 0])
                /\ IF w = "crash"
                   THEN /\ pc' = [pc EXCEPT ![p] = "dead"] /\ fd' = [fd EXCEPT ![p] = FALSE] /\ crashes' = crashes + 1
                        /\ UNCHANGED <<nw, lost, tmp, vis, ro, out, faults, faulted, unclean>>
                   ELSE /\ Effect(p, w) /\ faults' = faults + (IF w = "go" THEN 0 ELSE 1)
                        /\ faulted' = (IF w = "go" THEN faulted ELSE faulted \union {p})
                        /\ unclean' = (IF w = "err" /\ pc[p] \in {"eunlink"} THEN unclean \union {p} ELSE unclean)
                        /\ UNCHANGED crashes
           /\ UNCHANGED <<call, left, seen>>
Result(p) == pc[p] = "result" /\ Goto(p, "idle") /\ UNCHANGED <<call, left, nw, lost, tmp, fd, vis, ro, out, faults, crashes, unclean, faulted, seen, hist>>
Quiet == \A p \in Procs : pc[p] = "dead" \/ (pc[p] = "idle" /\ left[p] = 0)
End == Gen /\ Quiet /\ hist # <<>> /\ hist[Len(hist)].p # 0 /\ hist' = Append(hist, [p |-> 0, w |-> "end", o |-> 0])
       /\ UNCHANGED <<pc, call, left, nw, lost, tmp, fd, vis, ro, out, faults, crashes, unclean, faulted, seen>>
Active == {p \in Procs : ~(pc[p] = "dead" \/ (pc[p] = "idle" /\ left[p] = 0))}
Next == (\E p \in (IF Gen /\ Active # {} THEN {RandomElement(Active)} ELSE Procs) : Begin(p) \/ Step(p) \/ Result(p)) \/ End
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in Procs : WF_vars(Step(p)) /\ WF_vars(Result(p))

Complete == \A o \in Objs : vis[o] # "bad"
Stays == [][\A o \in Objs : vis[o] = "right" => vis'[o] = "right"]_vars
\* a finished call
Reported == \A p \in Procs : pc[p] = "result" /\ call[p].what \in Writing =>
              /\ (out[p] = "ok" => vis[O(p)] = "right" /\ ~tmp[p])
              /\ (tmp[p] => p \in unclean) /\ ~fd[p]
              /\ (out[p] = "raised" => p \in faulted)
\* (two storing the same object: the second rename may undo and redo the mode, so only the last call settles it)
ReadOnly == Quiet /\ faulted = {} /\ crashes = 0 => \A o \in Objs : vis[o] = "right" => ro[o]
Readers == \A p \in Procs : pc[p] = "result" /\ call[p].what \notin Writing /\ p \notin faulted =>
              (seen[p] => out[p] = "found") /\ (out[p] = "found" => vis[O(p)] = "right")
Ends == \A p \in Procs : (pc[p] \in Calls) ~> (pc[p] \in {"result", "dead"})
View == <<pc, call, left, nw, lost, tmp, fd, vis, ro, out, faults, crashes, unclean, faulted, seen>>
PrintCase == hist # <<>> /\ hist[Len(hist)].p = 0 => PrintT(ToJson(hist))
================================================================================
