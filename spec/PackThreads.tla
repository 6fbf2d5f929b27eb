------------------------------ MODULE PackThreads ------------------------------
(* Several threads look up objects in one packed database (C19). The interpreter    *)
(* may switch between any two steps. Modelled as gitdb does it:                      *)
(*   - the list of packs is reordered by hits now and then. In place (as found): the  *)
(*     list is empty for other threads while it is being sorted, and moves under the   *)
(*     feet of those walking over it. Rebound: walkers keep the list they began with.   *)
(*   - reading an object first moves the cursor of the pack, then looks where it is     *)
(*     (as found); or uses a position of its own.                                      *)
(*   - an index is mapped at its first use, by whoever comes first. The map manager      *)
(*     keeps one region for a file and refuses to go on if there are two.               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, NPack, PerThread, Interval,
          FixSort, FixCursor, FixMap

VARIABLES pc, list, walk, hits, nhit, pos, regions, idx, want, got, left, walkpos, old, locked
vars == <<pc, list, walk, hits, nhit, pos, regions, idx, want, got, left, walkpos, old, locked>>

Packs == 1..NPack
\* object p lies in pack p, object 0 nowhere
Objs == 0..NPack
Rng(q) == {q[j] : j \in 1..Len(q)}

RECURSIVE SortBy(_, _)
SortBy(q, h) == IF q = <<>> THEN <<>>
  ELSE LET b == CHOOSE j \in 1..Len(q) : \A i \in 1..Len(q) : h[q[i]] < h[q[j]] \/ (h[q[i]] = h[q[j]] /\ j <= i)
       IN <<q[b]>> \o SortBy(SubSeq(q, 1, b - 1) \o SubSeq(q, b + 1, Len(q)), h)

Init == /\ pc = [t \in Threads |-> "idle"] /\ list = [j \in 1..NPack |-> j] /\ walk = [t \in Threads |-> <<>>]
        /\ hits = [p \in Packs |-> NPack - p] /\ nhit = 0 /\ pos = [p \in Packs |-> 0]
        /\ regions = [p \in Packs |-> 0] /\ idx = [p \in Packs |-> FALSE]
        /\ want = [t \in Threads |-> 0] /\ got = [t \in Threads |-> "none"] /\ left = [t \in Threads |-> PerThread]
        /\ walkpos = [t \in Threads |-> 0] /\ old = [t \in Threads |-> <<>>] /\ locked = "no"

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E o \in Objs : want' = [want EXCEPT ![t] = o]
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ got' = [got EXCEPT ![t] = "none"]
            /\ Go(t, IF nhit % Interval = 0 THEN "sort" ELSE "iter")
            /\ UNCHANGED <<list, walk, hits, nhit, pos, regions, idx, walkpos, old, locked>>
\* list.sort() takes the elements out, compares, and puts them back
Sort(t) == /\ pc[t] = "sort"
           /\ IF FixSort THEN list' = SortBy(list, hits) /\ Go(t, "iter") /\ UNCHANGED old
              ELSE old' = [old EXCEPT ![t] = list] /\ list' = <<>> /\ Go(t, "sorting")
           /\ UNCHANGED <<walk, hits, nhit, pos, regions, idx, want, got, left, walkpos, locked>>
Sorted(t) == /\ pc[t] = "sorting" /\ list' = SortBy(old[t], hits) /\ Go(t, "iter")
             /\ UNCHANGED <<walk, hits, nhit, pos, regions, idx, want, got, left, walkpos, old, locked>>
Iter(t) == /\ pc[t] = "iter" /\ walk' = [walk EXCEPT ![t] = list] /\ walkpos' = [walkpos EXCEPT ![t] = 1] /\ Go(t, "next")
           /\ UNCHANGED <<list, hits, nhit, pos, regions, idx, want, got, left, old, locked>>
Seen(t) == IF FixSort THEN walk[t] ELSE list
Nxt(t) == /\ pc[t] = "next"
          /\ IF walkpos[t] > Len(Seen(t)) THEN got' = [got EXCEPT ![t] = "missing"] /\ Go(t, "done") /\ UNCHANGED <<walkpos, walk>>
             ELSE LET p == Seen(t)[walkpos[t]] IN
                  /\ walk' = IF FixSort THEN walk ELSE [walk EXCEPT ![t] = [j \in 1..walkpos[t] |-> p]]
                  /\ Go(t, IF idx[p] THEN "ask" ELSE "map") /\ UNCHANGED <<walkpos, got>>
          /\ UNCHANGED <<list, hits, nhit, pos, regions, idx, want, left, old, locked>>
Cur(t) == walk[t][walkpos[t]]
\* mapping an index: look whether the file is mapped, map it, remember the region
Map(t) == /\ pc[t] = "map" /\ (FixMap => locked = "no")
          /\ LET p == Cur(t) IN
             IF regions[p] > 1 THEN got' = [got EXCEPT ![t] = "error"] /\ Go(t, "done") /\ UNCHANGED <<idx, locked>>
             ELSE IF regions[p] = 1 THEN idx' = [idx EXCEPT ![p] = TRUE] /\ Go(t, "ask") /\ UNCHANGED <<got, locked>>
             ELSE Go(t, "mapping") /\ locked' = (IF FixMap THEN "yes" ELSE locked) /\ UNCHANGED <<got, idx>>
          /\ UNCHANGED <<list, walk, hits, nhit, pos, regions, want, left, walkpos, old>>
Mapped(t) == /\ pc[t] = "mapping" /\ regions' = [regions EXCEPT ![Cur(t)] = @ + 1] /\ Go(t, "setidx")
             /\ UNCHANGED <<list, walk, hits, nhit, pos, idx, want, got, left, walkpos, old, locked>>
SetIdx(t) == /\ pc[t] = "setidx" /\ idx' = [idx EXCEPT ![Cur(t)] = TRUE] /\ Go(t, "ask") /\ locked' = "no"
             /\ UNCHANGED <<list, walk, hits, nhit, pos, regions, want, got, left, walkpos, old>>
Ask(t) == /\ pc[t] = "ask"
          /\ IF want[t] = Cur(t)
             THEN /\ hits' = [hits EXCEPT ![Cur(t)] = @ + 1] /\ nhit' = nhit + 1 /\ Go(t, "move") /\ UNCHANGED walkpos
             ELSE /\ walkpos' = [walkpos EXCEPT ![t] = @ + 1] /\ Go(t, "next") /\ UNCHANGED <<hits, nhit>>
          /\ UNCHANGED <<list, walk, pos, regions, idx, want, got, left, old, locked>>
\* reading: every thread wants another place of the pack (its own number)
Move(t) == /\ pc[t] = "move" /\ pos' = (IF FixCursor THEN pos ELSE [pos EXCEPT ![Cur(t)] = t]) /\ Go(t, "read")
           /\ UNCHANGED <<list, walk, hits, nhit, regions, idx, want, got, left, walkpos, old, locked>>
Read(t) == /\ pc[t] = "read" /\ got' = [got EXCEPT ![t] = IF FixCursor \/ pos[Cur(t)] = t THEN "right" ELSE "wrong"] /\ Go(t, "done")
           /\ UNCHANGED <<list, walk, hits, nhit, pos, regions, idx, want, left, walkpos, old, locked>>
End(t) == /\ pc[t] = "done" /\ Go(t, "idle") /\ UNCHANGED <<list, walk, hits, nhit, pos, regions, idx, want, got, left, walkpos, old, locked>>

Next == \E t \in Threads : Begin(t) \/ Sort(t) \/ Sorted(t) \/ Iter(t) \/ Nxt(t) \/ Map(t) \/ Mapped(t) \/ SetIdx(t) \/ Ask(t) \/ Move(t) \/ Read(t) \/ End(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Small == nhit <= 6
Answers == \A t \in Threads : pc[t] = "done" => got[t] = (IF want[t] = 0 THEN "missing" ELSE "right")
\* every lookup ends
Ends == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
===============================================================================
