-------------------------------- MODULE Shared -----------------------------------
(* A repository used by git and gitdb in turns (C27): packs come and go, loose objects move into     *)
(* them, gitdb's databases know the packs which were there when they looked last.                    *)
(* Git's answers always are those of the directories; a database's come from packs it knows and that   *)
(* still exist (or which it has mapped), and from loose files.                                      *)
(* Mutants (negative controls): "never" looks at packs but once, "alone" doesn't refresh the packs of   *)
(* the alternate, "loose" remembers loose objects.                                                 *)
EXTENDS SharedContract, TLC, Json

CONSTANTS N, MaxOps, MaxPacks, Dbs, Mutant, Gen

VARIABLES st, packs, view, mem, last, ops, hist
vars == <<st, packs, view, mem, last, ops, hist>>
Objs == 1..N
Two == <<1, 2>>
Three == <<1, 2, 1>>
H == 1..Len(Dbs)
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Base == [op |-> "", who |-> "git", db |-> 1, d |-> 1, o |-> 0, os |-> <<>>, m |-> <<>>, out |-> "ok", got |-> 0, all |-> <<>>, what |-> "", left |-> 0]
Note(w, d, o, q) == hist' = Append(hist, [w |-> w, d |-> d, o |-> o, os |-> q])
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Did(e) == last' = SharedVerdict(st, e) /\ st' = SharedApply(st, e)
Live(d) == {k \in DOMAIN packs : packs[k].live /\ (packs[k].d = d \/ d = 1)}

Init == /\ st = SharedInit([n |-> N, dbs |-> Dbs]) /\ packs = <<>> /\ view = [h \in H |-> {}] /\ mem = [h \in H |-> {}] /\ last = "" /\ ops = 0 /\ hist = <<>>

Write == \E o \in Pick(Objs) : \E d \in Pick({1, 2}) :
           /\ UNCHANGED <<packs, view, mem>> /\ Did([Base EXCEPT !.op = "write", !.o = o, !.d = d, !.got = o]) /\ Note("write", d, o, <<>>)
DbWrite == \E o \in Pick(Objs) : \E h \in Pick(H) :
           /\ UNCHANGED <<packs, view, mem>> /\ Did([Base EXCEPT !.op = "write", !.who = "gitdb", !.db = h, !.o = o, !.d = Dbs[h], !.got = o]) /\ Note("dbwrite", h, o, <<>>)
Some(S) == IF Gen THEN (IF RandomElement(1..3) = 1 THEN {S} ELSE {RandomElement((SUBSET S) \ {{}})}) ELSE (SUBSET S) \ {{}}
\* several objects at once, at the beginning of a generated history
Fill == \E S \in {RandomElement(SUBSET Objs)} : \E d \in {RandomElement({1, 2})} :
           /\ UNCHANGED <<packs, view, mem, last>> /\ st' = [st EXCEPT !.loose[d] = S, !.ever = S] /\ hist' = Append(hist, [w |-> "fill", d |-> d, o |-> 0, os |-> SeqOf(S)])
Pack == \E d \in Pick({1, 2}) : Sees(st, d) # {} /\ Len(packs) < MaxPacks /\
          \E S \in Some(Sees(st, d)) :
           LET q == SeqOf(S) IN
           /\ UNCHANGED <<view, mem>> /\ packs' = Append(packs, [d |-> d, os |-> S, live |-> TRUE])
           /\ Did([Base EXCEPT !.op = "pack", !.d = d, !.os = q]) /\ Note("pack", d, 0, q)
\* what a database would answer
Found(h) == UNION {packs[k].os : k \in {j \in view[h] : packs[j].live}} \union LooseSeen(st, Dbs[h]) \union mem[h]
DbPack == \E h \in Pick(H) : Found(h) # {} /\ Len(packs) < MaxPacks /\
          \E S \in Some(Found(h)) :
           LET q == SeqOf(S) IN
           /\ UNCHANGED <<view, mem>> /\ packs' = Append(packs, [d |-> Dbs[h], os |-> S, live |-> TRUE])
           /\ Did([Base EXCEPT !.op = "pack", !.who = "gitdb", !.db = h, !.d = Dbs[h], !.os = q]) /\ Note("dbpack", h, 0, q)
Maint == \E d \in Pick({1, 2}) : \E w \in Pick({"prunepacked", "repack", "prune"}) :
           /\ UNCHANGED <<view, mem>> /\ (w = "repack" => Len(packs) < MaxPacks)
           /\ packs' = (IF w # "repack" THEN packs
                        ELSE Append([k \in DOMAIN packs |-> IF packs[k].d = d THEN [packs[k] EXCEPT !.live = FALSE] ELSE packs[k]],
                                    [d |-> d, os |-> Local(st, d), live |-> TRUE]))
           /\ Did([Base EXCEPT !.op = "maint", !.what = w, !.d = d]) /\ Note(w, d, 0, <<>>)
Refresh == \E h \in Pick(H) :
           /\ UNCHANGED packs /\ view' = [view EXCEPT ![h] = {k \in Live(Dbs[h]) : (Mutant # "never" \/ @ = {}) /\ (Mutant # "alone" \/ packs[k].d = Dbs[h] \/ k \in @)}]
           /\ mem' = (IF Mutant = "loose" THEN [mem EXCEPT ![h] = @ \union LooseSeen(st, Dbs[h])] ELSE mem)
           /\ Did([Base EXCEPT !.op = "refresh", !.db = h]) /\ Note("refresh", h, 0, <<>>)
Ask == \E h \in Pick(H) : \E o \in Pick(Objs) :
           /\ UNCHANGED <<packs, view, mem>> /\ LET f == o \in Found(h) IN
              Did([Base EXCEPT !.op = "ask", !.who = "gitdb", !.db = h, !.d = Dbs[h], !.o = o, !.got = o, !.out = IF f THEN "ok" ELSE "BadObject"])
           /\ Note("ask", h, o, <<>>)
List == \E h \in Pick(H) :
           /\ UNCHANGED <<packs, view, mem>> /\ Did([Base EXCEPT !.op = "list", !.who = "gitdb", !.db = h, !.d = Dbs[h], !.all = SeqOf(Found(h))]) /\ Note("list", h, 0, <<>>)
Part == \E h \in Pick(H) : \E M \in Pick(IF Gen THEN {{1}} ELSE SUBSET Objs) : \E o \in Pick(Objs) :
           /\ UNCHANGED <<packs, view, mem>> /\ (Gen \/ o = 1)
           /\ LET c == M \intersect Found(h) IN
              Did([Base EXCEPT !.op = "part", !.who = "gitdb", !.db = h, !.d = Dbs[h], !.m = SeqOf(M), !.got = IF Cardinality(c) = 1 THEN CHOOSE x \in c : TRUE ELSE 0,
                               !.out = CASE c = {} -> "BadObject" [] Cardinality(c) = 1 -> "ok" [] OTHER -> "Ambiguous"])
           /\ Note("part", h, o, <<>>)
GitAsk == /\ Gen /\ UNCHANGED <<st, packs, view, mem, last>> /\ \E d \in Pick({1, 2}) : Note("gitask", d, 0, <<>>)
Act == CASE Gen /\ ops = 0 -> Fill
         [] Gen -> (LET k == RandomElement(1..24) IN
                    CASE k <= 3 -> Write [] k <= 5 -> DbWrite [] k <= 9 -> (IF Sees(st, 2) = {} THEN Write ELSE Pack) [] k <= 12 -> (IF \E h \in H : Found(h) = {} THEN Write ELSE DbPack)
                      [] k <= 15 -> Maint [] k <= 18 -> Refresh [] k <= 20 -> Ask [] k = 21 -> List [] k = 22 -> Part [] k = 23 -> GitAsk [] OTHER -> Write)
         [] OTHER -> Write \/ DbWrite \/ Pack \/ DbPack \/ Maint \/ Refresh \/ Ask \/ List \/ Part
Next == last = "" /\ ops < MaxOps /\ ops' = ops + 1 /\ Act
Spec == Init /\ [][Next]_vars

Allowed == last = ""
\* the directories the contract remembers are those of the files
Faithful == \A d \in {1, 2} : st.packed[d] = UNION {packs[k].os : k \in {j \in DOMAIN packs : packs[j].live /\ packs[j].d = d}}
View == <<st, packs, view, mem, last, ops>>
PrintCase == ops = MaxOps => PrintT(ToJson(hist))
================================================================================
