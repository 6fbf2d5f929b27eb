------------------------------ MODULE PackCreate -------------------------------
(* Creating packs in a directory (C12), a file-system call per step: two temporary      *)
(* files, pack and index are written, closed and renamed, the index last. Readers list    *)
(* the packs, leave out those without index, load the new ones and read everything. Any     *)
(* call of a creation may fail, any write be short, any process die at any step.            *)
(* The flags being FALSE give the behaviour as first found:                                 *)
(*   FixClean  a failing creation left its files and descriptors behind                      *)
(*   FixShort  short writes were not noticed                                                 *)
(*   FixIdx    readers took packs without index                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Creators, Readers, Same, NW, NReads, MaxFaults, MaxCrashes, FixClean, FixShort, FixIdx, Gen

VARIABLES pc, nw, tp, ti, fp, fi, lp, li, inst, pk, ix, out, stuck, faulted, faults, crashes,
          rpc, rleft, known, cand, must, rerr, hist
cvars == <<pc, nw, tp, ti, fp, fi, lp, li, inst, pk, ix, out, stuck, faulted, faults, crashes>>
rvars == <<rpc, rleft, known, cand, must, rerr>>
vars == <<cvars, rvars, hist>>

Name(c) == IF Same THEN 1 ELSE c
Names == {Name(c) : c \in Creators}
Visible(n) == pk[n] # "none" /\ ix[n] # "none"

Init == /\ pc = [c \in Creators |-> "mkp"] /\ nw = [c \in Creators |-> 0]
        /\ tp = {} /\ ti = {} /\ fp = {} /\ fi = {} /\ lp = {} /\ li = {} /\ inst = {}
        /\ \E b \in (IF Gen THEN {FALSE} ELSE BOOLEAN) : pk = [n \in Names |-> IF b THEN "right" ELSE "none"] /\ ix = pk
        /\ out = [c \in Creators |-> ""] /\ stuck = {} /\ faulted = {} /\ faults = 0 /\ crashes = 0
        /\ rpc = [r \in Readers |-> "idle"] /\ rleft = [r \in Readers |-> NReads] /\ known = [r \in Readers |-> {}]
        /\ cand = [r \in Readers |-> {}] /\ must = [r \in Readers |-> {}] /\ rerr = FALSE /\ hist = <<>>

Ws(c) == {"go"} \union (IF faults < MaxFaults THEN {"err"} ELSE {}) \union (IF crashes < MaxCrashes THEN {"crash"} ELSE {})
         \union (IF faults < MaxFaults /\ pc[c] \in {"wp", "wi"} THEN {"short"} ELSE {})
Choice(c) == IF Gen THEN (IF RandomElement(1..8) = 1 THEN {RandomElement(Ws(c))} ELSE {"go"}) ELSE Ws(c)

Goto(c, l) == pc' = [pc EXCEPT ![c] = l] /\ UNCHANGED out
Ret(c, how) == pc' = [pc EXCEPT ![c] = "result"] /\ out' = [out EXCEPT ![c] = how]
\* the next thing to clean up after l
Order == <<"ucp", "uci", "utp", "uti", "ufp">>
Needed(c, l, f_p, f_i, t_p, t_i, in_) ==
  CASE l = "ucp" -> c \in f_p [] l = "uci" -> c \in f_i [] l = "utp" -> c \in t_p [] l = "uti" -> c \in t_i
    [] OTHER -> c \in in_
Failing(c, from) ==
  LET k == {j \in from..5 : Needed(c, Order[j], fp', fi', tp', ti', inst')}
  IN IF FixClean /\ k # {} THEN Goto(c, Order[CHOOSE j \in k : \A i \in k : j <= i]) ELSE Ret(c, "raised")

\* x: which of the variables stay
Rest(c, w) == UNCHANGED <<lp, li>>
Effect(c, w) ==
  LET n == Name(c)
      l == pc[c]
      bad == w \in {"err"} \/ (w = "short" /\ FixShort)
      lossp == lp \union (IF l = "wp" /\ w # "go" THEN {c} ELSE {})
      lossi == li \union (IF l = "wi" /\ w # "go" THEN {c} ELSE {})
      Same8 == UNCHANGED <<tp, ti, inst, pk, ix>>
  IN
  CASE l = "mkp" -> /\ tp' = (IF bad THEN tp ELSE tp \union {c}) /\ fp' = (IF bad THEN fp ELSE fp \union {c}) /\ UNCHANGED <<ti, fi, inst, pk, ix, nw, lp, li>>
                    /\ IF bad THEN Ret(c, "raised") ELSE Goto(c, "mki")
    [] l = "mki" -> /\ ti' = (IF bad THEN ti ELSE ti \union {c}) /\ fi' = (IF bad THEN fi ELSE fi \union {c}) /\ UNCHANGED <<tp, fp, inst, pk, ix, nw, lp, li>>
                    /\ IF bad THEN Failing(c, 1) ELSE Goto(c, "wp")
    [] l \in {"wp", "wi"} ->
         /\ lp' = lossp /\ li' = lossi /\ UNCHANGED <<tp, ti, fp, fi, inst, pk, ix>>
         /\ IF bad THEN Failing(c, 1) /\ UNCHANGED nw
            ELSE IF nw[c] + 1 < NW THEN nw' = [nw EXCEPT ![c] = @ + 1] /\ Goto(c, l)
            ELSE nw' = [nw EXCEPT ![c] = 0] /\ Goto(c, IF l = "wp" THEN "wi" ELSE "cp")
    \* a failing close does close
    [] l = "cp" -> fp' = fp \ {c} /\ UNCHANGED <<tp, ti, fi, inst, pk, ix, nw, lp, li>> /\ IF bad THEN Failing(c, 1) ELSE Goto(c, "ci")
    [] l = "ci" -> fi' = fi \ {c} /\ UNCHANGED <<tp, ti, fp, inst, pk, ix, nw, lp, li>> /\ IF bad THEN Failing(c, 1) ELSE Goto(c, "rp")
    [] l = "rp" -> /\ IF bad THEN UNCHANGED <<tp, inst, pk>> ELSE tp' = tp \ {c} /\ inst' = inst \union {c} /\ pk' = [pk EXCEPT ![n] = IF c \in lp THEN "bad" ELSE "right"]
                   /\ UNCHANGED <<ti, fp, fi, ix, nw, lp, li>> /\ IF bad THEN Failing(c, 1) ELSE Goto(c, "ri")
    [] l = "ri" -> /\ IF bad THEN UNCHANGED <<ti, ix>> ELSE ti' = ti \ {c} /\ ix' = [ix EXCEPT ![n] = IF c \in li THEN "bad" ELSE "right"]
                   /\ UNCHANGED <<tp, fp, fi, inst, pk, nw, lp, li>> /\ IF bad THEN Failing(c, 1) ELSE Ret(c, "ok")
    [] l = "ucp" -> fp' = fp \ {c} /\ UNCHANGED <<tp, ti, fi, inst, pk, ix, nw, lp, li>> /\ Failing(c, 2)
    [] l = "uci" -> fi' = fi \ {c} /\ UNCHANGED <<tp, ti, fp, inst, pk, ix, nw, lp, li>> /\ Failing(c, 3)
    [] l = "utp" -> tp' = (IF bad THEN tp ELSE tp \ {c}) /\ UNCHANGED <<ti, fp, fi, inst, pk, ix, nw, lp, li>> /\ Failing(c, 4)
    [] l = "uti" -> ti' = (IF bad THEN ti ELSE ti \ {c}) /\ UNCHANGED <<tp, fp, fi, inst, pk, ix, nw, lp, li>> /\ Failing(c, 5)
    \* the pack which is in place already, unless it was there before, with its index
    [] OTHER -> /\ IF bad \/ ix[n] # "none" THEN UNCHANGED <<pk, inst>> ELSE pk' = [pk EXCEPT ![n] = "none"] /\ inst' = inst \ {c}
                /\ UNCHANGED <<tp, ti, fp, fi, ix, nw, lp, li>> /\ Ret(c, "raised")

Step(c) == /\ pc[c] \notin {"result", "over", "dead"}
           /\ \E w \in Choice(c) :
                /\ hist' = Append(hist, [p |-> c, w |-> w])
                /\ IF w = "crash"
                   THEN /\ pc' = [pc EXCEPT ![c] = "dead"] /\ crashes' = crashes + 1 /\ fp' = fp \ {c} /\ fi' = fi \ {c}
                        /\ UNCHANGED <<nw, tp, ti, lp, li, inst, pk, ix, out, stuck, faulted, faults>>
                   ELSE /\ Effect(c, w) /\ faults' = faults + (IF w = "go" THEN 0 ELSE 1) /\ UNCHANGED crashes
                        /\ faulted' = (IF w = "go" THEN faulted ELSE faulted \union {c})
                        /\ stuck' = (IF w = "err" /\ pc[c] \in {"utp", "uti", "ufp"} THEN stuck \union {c} ELSE stuck)
           /\ UNCHANGED rvars
Result(c) == pc[c] = "result" /\ pc' = [pc EXCEPT ![c] = "over"]
             /\ UNCHANGED <<nw, tp, ti, fp, fi, lp, li, inst, pk, ix, out, stuck, faulted, faults, crashes, rvars, hist>>

\* a reader: refresh the list of packs, then read everything in them
Read(r) ==
  /\ hist' = Append(hist, [p |-> r, w |-> "go"]) /\ UNCHANGED cvars
  /\ CASE rpc[r] = "idle" /\ rleft[r] > 0 ->
            /\ rleft' = [rleft EXCEPT ![r] = @ - 1] /\ must' = [must EXCEPT ![r] = {n \in Names : Visible(n)}]
            /\ rpc' = [rpc EXCEPT ![r] = "glob"] /\ UNCHANGED <<known, cand, rerr>>
       [] rpc[r] = "glob" -> /\ cand' = [cand EXCEPT ![r] = {n \in Names : pk[n] # "none"}] /\ rpc' = [rpc EXCEPT ![r] = "idx"]
                             /\ UNCHANGED <<rleft, known, must, rerr>>
       [] rpc[r] = "idx" -> /\ cand' = [cand EXCEPT ![r] = IF FixIdx THEN {n \in @ : ix[n] # "none"} ELSE @] /\ rpc' = [rpc EXCEPT ![r] = "load"]
                            /\ UNCHANGED <<rleft, known, must, rerr>>
       [] rpc[r] = "load" -> /\ known' = [known EXCEPT ![r] = cand[r]] /\ rerr' = (rerr \/ \E n \in cand[r] \ known[r] : ~Visible(n))
                             /\ rpc' = [rpc EXCEPT ![r] = "read"] /\ UNCHANGED <<rleft, cand, must>>
       [] rpc[r] = "read" -> /\ rerr' = (rerr \/ \E n \in known[r] : pk[n] # "right" \/ ix[n] # "right")
                             /\ rpc' = [rpc EXCEPT ![r] = "done"] /\ UNCHANGED <<rleft, known, cand, must>>
       [] OTHER -> rpc[r] = "done" /\ rpc' = [rpc EXCEPT ![r] = "idle"] /\ UNCHANGED <<rleft, known, cand, must, rerr>>

Over(p) == IF p \in Creators THEN pc[p] \in {"over", "dead"} ELSE rpc[p] = "idle" /\ rleft[p] = 0
Active == {p \in Creators \union Readers : ~Over(p)}
End == Gen /\ Active = {} /\ hist # <<>> /\ hist[Len(hist)].p # 0 /\ hist' = Append(hist, [p |-> 0, w |-> "end"]) /\ UNCHANGED <<cvars, rvars>>
Next == (\E p \in (IF Gen /\ Active # {} THEN {RandomElement(Active)} ELSE Creators \union Readers) :
           IF p \in Creators THEN Step(p) \/ Result(p) ELSE Read(p)) \/ End
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A c \in Creators : WF_vars(Step(c)) /\ WF_vars(Result(c))

VisibleRight == \A n \in Names : Visible(n) => pk[n] = "right" /\ ix[n] = "right"
Stays == [][\A n \in Names : Visible(n) => (pk'[n] # "none" /\ ix'[n] # "none")]_vars
NoReaderError == ~rerr
ReaderSees == \A r \in Readers : rpc[r] = "done" => must[r] \subseteq known[r]
Reported == \A c \in Creators : pc[c] = "result" =>
              /\ c \notin fp \union fi
              /\ (out[c] = "ok" => Visible(Name(c)) /\ c \notin tp \union ti)
              /\ (out[c] = "raised" => c \in faulted /\ (c \in stuck \/ (c \notin tp \union ti /\ (c \in inst => Visible(Name(c))))))
Ends == \A c \in Creators : <>(pc[c] \in {"over", "dead"})
View == <<cvars, rvars>>
PrintCase == hist # <<>> /\ hist[Len(hist)].p = 0 => PrintT(ToJson(hist))
================================================================================
