------------------------------- MODULE LockFile --------------------------------
(* Holders of lock files on one path (C16), a file-system call per step. An instance   *)
(* opens for writing (create the lock file exclusively, keep it open) or for reading     *)
(* (create it, close it, open the file), and ends by commit, rollback or being dropped.   *)
(* Any call may fail, writes may be short, and processes may die at any step.              *)
(* Contents are sequences of the pieces written (<<0>>: there is no file).                 *)
(* The flags being FALSE give the behaviour as first found:                                *)
(*   FixClose   the lock stayed if closing its descriptor failed at the end                  *)
(*   FixRename  the lock stayed if it could not be renamed over the file                     *)
(*   FixOpen    the lock stayed if closing it failed in opening for reading                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Shared, NCalls, MaxFaults, MaxCrashes, FixClose, FixRename, FixOpen, Gen

P == 1..N
ProcOf(p) == IF Shared /\ p = 2 THEN 1 ELSE p
VARIABLES pc, call, left, mode, cont, start, lock, lcont, wrote, fd, got, stuck, faulted, faults, crashes, out, hist
vars == <<pc, call, left, mode, cont, start, lock, lcont, wrote, fd, got, stuck, faulted, faults, crashes, out, hist>>
fsv == <<mode, cont, lock, lcont, wrote, fd, got>>
Absent == <<0>>
Foreign == N + 1

Init == /\ pc = [p \in P |-> "idle"] /\ call = [p \in P |-> ""] /\ left = [p \in P |-> NCalls] /\ mode = [p \in P |-> "new"]
        \* (this is evaluated once for all generated behaviours, which begin with any of these)
        /\ \E c \in {Absent, <<9>>} : cont = c /\ start = c
        /\ lock \in (IF Gen THEN {0} ELSE {0, Foreign})
        /\ lcont = <<>> /\ wrote = [p \in P |-> <<>>] /\ fd = [p \in P |-> FALSE] /\ got = [p \in P |-> Absent]
        /\ stuck = {} /\ faulted = {} /\ faults = 0 /\ crashes = 0 /\ out = [p \in P |-> ""] /\ hist = <<>>

Holding(p) == mode[p] \in {"w", "r"}
Ending == {"commit", "rollback", "drop"}
Opening == {"openw", "openr"}
\* what may be called in which mode (anything else is refused or has no effect, and is left to the generator)
Calls(p) == CASE mode[p] = "new" -> {"openw", "openr"} [] mode[p] = "w" -> {"write"} \union Ending [] mode[p] = "r" -> {"read"} \union Ending [] OTHER -> {}
Odd(p) == CASE mode[p] = "new" -> {"commit", "rollback", "drop"} [] mode[p] = "w" -> {"openw", "openr", "read"} [] mode[p] = "r" -> {"openw", "openr", "write"}
            [] OTHER -> {"commit", "rollback", "openw", "drop"}
First(w) == CASE w \in Opening -> "create" [] w = "write" -> "write" [] w = "read" -> "read" [] OTHER -> "close"

Busy(p) == \E q \in P : ProcOf(q) = ProcOf(p) /\ pc[q] \notin {"idle", "dead"}
Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0 /\ ~Busy(p) /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ \E w \in (IF Gen THEN {RandomElement(IF Calls(p) = {} \/ RandomElement(1..12) = 1 THEN Odd(p) ELSE Calls(p))} ELSE Calls(p)) :
                 /\ call' = [call EXCEPT ![p] = w]
                 /\ pc' = [pc EXCEPT ![p] = IF w \in Calls(p) THEN First(w) ELSE "result"]
                 /\ out' = [out EXCEPT ![p] = IF w \in Calls(p) THEN "" ELSE "odd"]
                 /\ hist' = Append(hist, [p |-> p, w |-> w, s |-> FALSE])
            /\ faulted' = faulted \ {p}
            /\ UNCHANGED <<mode, cont, start, lock, lcont, wrote, fd, got, stuck, faults, crashes>>

Ws(p) == {"go"} \union (IF faults < MaxFaults THEN {"err"} ELSE {}) \union (IF crashes < MaxCrashes THEN {"crash"} ELSE {})
         \union (IF faults < MaxFaults /\ pc[p] = "write" THEN {"short"} ELSE {})
Choice(p) == IF Gen THEN (IF RandomElement(1..6) = 1 THEN {RandomElement(Ws(p))} ELSE {"go"}) ELSE Ws(p)
Goto(p, l) == pc' = [pc EXCEPT ![p] = l] /\ UNCHANGED out
Ret(p, how) == pc' = [pc EXCEPT ![p] = "result"] /\ out' = [out EXCEPT ![p] = how]
Fail(p) == mode' = [mode EXCEPT ![p] = "done"]

Create(p, w) ==
  IF w = "err" \/ lock # 0 THEN Ret(p, "raised") /\ Fail(p) /\ UNCHANGED <<cont, lock, lcont, wrote, fd, got>>
  ELSE /\ lock' = p /\ lcont' = <<>> /\ fd' = [fd EXCEPT ![p] = TRUE] /\ UNCHANGED <<cont, wrote, got>>
       /\ IF call[p] = "openw" THEN Ret(p, "ok") /\ mode' = [mode EXCEPT ![p] = "w"] ELSE Goto(p, "lclose") /\ UNCHANGED mode
\* a failing close does close
Lclose(p, w) == /\ fd' = [fd EXCEPT ![p] = FALSE] /\ UNCHANGED <<cont, lock, lcont, wrote, got>>
                /\ IF w = "err" THEN (IF FixOpen THEN Goto(p, "ounlink") /\ UNCHANGED mode ELSE Ret(p, "raised") /\ Fail(p)) ELSE Goto(p, "openfile") /\ UNCHANGED mode
Openfile(p, w) == IF w = "err" \/ cont = Absent THEN Goto(p, "ounlink") /\ UNCHANGED fsv
                  ELSE /\ fd' = [fd EXCEPT ![p] = TRUE] /\ mode' = [mode EXCEPT ![p] = "r"] /\ got' = [got EXCEPT ![p] = cont]
                       /\ Ret(p, "ok") /\ UNCHANGED <<cont, lock, lcont, wrote>>
Ounlink(p, w) == /\ lock' = (IF w = "go" THEN 0 ELSE lock) /\ Fail(p) /\ Ret(p, "raised") /\ UNCHANGED <<cont, lcont, wrote, fd, got>>
Piece(p, w) == IF w = "go" THEN p ELSE 10 + p
Write(p, w) == IF w = "err" THEN Ret(p, "raised") /\ UNCHANGED fsv
               ELSE /\ lcont' = Append(lcont, Piece(p, w)) /\ wrote' = [wrote EXCEPT ![p] = Append(@, Piece(p, w))]
                    /\ Ret(p, IF w = "go" THEN "ok" ELSE "raised") /\ UNCHANGED <<mode, cont, lock, fd, got>>
Read(p, w) == Ret(p, IF w = "go" THEN "ok" ELSE "raised") /\ UNCHANGED fsv
Installs(p) == call[p] = "commit" /\ mode[p] = "w"
Close(p, w) == /\ fd' = [fd EXCEPT ![p] = FALSE] /\ UNCHANGED <<cont, lock, lcont, wrote, got>>
               /\ IF w = "err" THEN (IF FixClose THEN Goto(p, "eunlink") /\ UNCHANGED mode ELSE Ret(p, "raised") /\ Fail(p))
                  ELSE Goto(p, IF Installs(p) THEN "rename" ELSE "unlink") /\ UNCHANGED mode
Rename(p, w) == IF w = "err" THEN (IF FixRename THEN Goto(p, "eunlink") /\ UNCHANGED fsv ELSE Ret(p, "raised") /\ Fail(p) /\ UNCHANGED <<cont, lock, lcont, wrote, fd, got>>)
                ELSE cont' = lcont /\ lock' = 0 /\ Fail(p) /\ Goto(p, "chmod") /\ UNCHANGED <<lcont, wrote, fd, got>>
Chmod(p, w) == Ret(p, IF w = "go" THEN "ok" ELSE "raised") /\ Fail(p) /\ UNCHANGED <<cont, lock, lcont, wrote, fd, got>>
Unlink(p, w) == /\ lock' = (IF w = "go" THEN 0 ELSE lock) /\ Fail(p) /\ Ret(p, IF w = "go" THEN "ok" ELSE "raised") /\ UNCHANGED <<cont, lcont, wrote, fd, got>>
Eunlink(p, w) == /\ lock' = (IF w = "go" THEN 0 ELSE lock) /\ Fail(p) /\ Ret(p, "raised") /\ UNCHANGED <<cont, lcont, wrote, fd, got>>

Steps == {"create", "lclose", "openfile", "ounlink", "write", "read", "close", "rename", "chmod", "unlink", "eunlink"}
Effect(p, w) ==
  CASE pc[p] = "create" -> Create(p, w) [] pc[p] = "lclose" -> Lclose(p, w) [] pc[p] = "openfile" -> Openfile(p, w) [] pc[p] = "ounlink" -> Ounlink(p, w)
    [] pc[p] = "write" -> Write(p, w) [] pc[p] = "read" -> Read(p, w) [] pc[p] = "close" -> Close(p, w) [] pc[p] = "rename" -> Rename(p, w)
    [] pc[p] = "chmod" -> Chmod(p, w) [] pc[p] = "unlink" -> Unlink(p, w) [] OTHER -> Eunlink(p, w)
Step(p) == /\ pc[p] \in Steps
           /\ \E w \in Choice(p) :
                /\ hist' = Append(hist, [p |-> p, w |-> w, s |-> TRUE])
                /\ IF w = "crash"
                   THEN /\ pc' = [q \in P |-> IF ProcOf(q) = ProcOf(p) THEN "dead" ELSE pc[q]] /\ crashes' = crashes + 1
                        /\ fd' = [q \in P |-> fd[q] /\ ProcOf(q) # ProcOf(p)] /\ mode' = [q \in P |-> IF ProcOf(q) = ProcOf(p) THEN "dead" ELSE mode[q]]
                        /\ UNCHANGED <<cont, lock, lcont, wrote, got, out, faults, faulted, stuck>>
                   ELSE /\ Effect(p, w) /\ faults' = faults + (IF w = "go" THEN 0 ELSE 1) /\ UNCHANGED crashes
                        /\ faulted' = (IF w = "go" THEN faulted ELSE faulted \union {p})
                        /\ stuck' = (IF w = "err" /\ pc[p] \in {"ounlink", "unlink", "eunlink"} THEN stuck \union {p} ELSE stuck)
           /\ UNCHANGED <<call, left, start>>
Result(p) == pc[p] = "result" /\ pc' = [pc EXCEPT ![p] = "idle"]
             /\ UNCHANGED <<call, left, mode, cont, start, lock, lcont, wrote, fd, got, stuck, faulted, faults, crashes, out, hist>>
Over(p) == pc[p] = "dead" \/ (pc[p] = "idle" /\ (left[p] = 0 \/ (~Gen /\ Calls(p) = {})))
Quiet == \A p \in P : Over(p)
End == Gen /\ Quiet /\ hist # <<>> /\ hist[Len(hist)].p # 0 /\ hist' = Append(hist, [p |-> 0, w |-> "end", s |-> FALSE])
       /\ UNCHANGED <<pc, call, left, mode, cont, start, lock, lcont, wrote, fd, got, stuck, faulted, faults, crashes, out>>
Active == {p \in P : ~Over(p) /\ (pc[p] = "idle" => ~Busy(p))}
Next == (\E p \in (IF Gen /\ Active # {} THEN {RandomElement(Active)} ELSE P) : Begin(p) \/ Step(p) \/ Result(p)) \/ End
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in P : WF_vars(Step(p)) /\ WF_vars(Result(p))

OneHolder == /\ Cardinality({p \in P : Holding(p)}) <= 1
             /\ \A p \in P : Holding(p) /\ pc[p] = "idle" => lock = p
\* a change of the content is a holder putting in place what it wrote
OnlyCommits == [][cont' # cont => \E p \in P : /\ pc[p] = "rename" /\ pc'[p] = "chmod" /\ lock = p /\ mode[p] = "w" /\ call[p] = "commit"
                                               /\ cont' = wrote[p]]_vars
\* a lock is only ended by its holder
OwnLock == [][lock' # lock /\ lock # 0 => lock' = 0 /\ lock \in P /\ pc[lock] # pc'[lock] /\ (Holding(lock) => call[lock] \in Ending)]_vars
Released == \A p \in P : pc[p] = "result" /\ out[p] # "odd" =>
              /\ (call[p] \in Ending \/ (call[p] \in Opening /\ out[p] = "raised") => (lock # p \/ p \in stuck) /\ ~fd[p])
              /\ (out[p] = "raised" /\ p \notin faulted => call[p] \in Opening)
ReadsContent == \A p \in P : mode[p] = "r" /\ lock = p => got[p] = cont
Ends == \A p \in P : (pc[p] \in Steps) ~> (pc[p] \in {"result", "dead"})
View == <<pc, call, left, mode, cont, lock, lcont, wrote, fd, got, stuck, faulted, faults, crashes, out>>
PrintCase == hist # <<>> /\ hist[Len(hist)].p = 0 => PrintT(ToJson([absent |-> start = Absent, h |-> hist]))
================================================================================
