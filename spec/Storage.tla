-------------------------------- MODULE Storage --------------------------------
(* Object directories changed by their environment, a database over them which is *)
(* queried and refreshed. cs is the contract's state. im is an implementation       *)
(* shaped like gitdb: a tree of parts with their lists of packs, positive caches,   *)
(* timestamps. Its answers must be allowed by the contract.                         *)
EXTENDS StorageContract, TLC, Json

CONSTANTS ND, NO, PackObjs, Roots, Single, MaxEnv, MaxOps, Len_, WithImpl,
          Junk,           \* kinds of alternates lines that name no directory
          FixIdx, FixDiscover, FixLoose, FixVanish, FixCirc, FixCache

VARIABLES cs, im, hist, nenv, nops, clock
vars == <<cs, im, hist, nenv, nops, clock>>

Cfg == [nd |-> ND, objs |-> [o \in 1..NO |-> [type |-> "blob", size |-> o, c |-> "c"]], packs |-> PackObjs, roots |-> Roots, single |-> Single]
Dirs == 1..ND
Packs == 1..Len(PackObjs)

\* ---- the implementation: path -> [pk, known, seen, ref, kids]
Fuel == ND + 2
ImKids(fs, p, anc, ref) == IF ~ref \/ ~fs[PDir(Cfg, p)].has THEN {}
   ELSE {k \in Rng(fs[PDir(Cfg, p)].lines) : k \in Dirs /\ fs[k].ex /\ (FixCirc => k \notin anc)}
ListPacks(fs, d) == IF FixIdx THEN fs[d].packs \cap fs[d].idxs ELSE fs[d].packs
Anc(p) == {PDir(Cfg, SubSeq(p, 1, j)) : j \in (IF Roots[p[1]].t = "git" THEN 1 ELSE 2)..Len(p)}
Node(fs, p) == LET d == PDir(Cfg, p) t == PType(Cfg, p) pk == HasPack(t) /\ fs[d].pd
                   ref == t = "ref" \/ (t = "git" /\ fs[d].has) IN
   [pk |-> pk, known |-> IF pk THEN ListPacks(fs, d) ELSE {}, seen |-> IF pk THEN fs[d].mt ELSE 0,
    ref |-> ref, kids |-> ImKids(fs, p, Anc(p), ref)]
RECURSIVE ImTree(_, _, _)
\* the tree below p, keeping the nodes of old (refreshed by Re)
ImNode(fs, p, old, force) ==
  IF p \notin DOMAIN old THEN Node(fs, p)
  ELSE LET o == old[p] d == PDir(Cfg, p) n == Node(fs, p)
           pk == IF FixDiscover THEN n.pk ELSE o.pk
           ref == IF FixDiscover THEN n.ref ELSE o.ref
           look == pk /\ fs[d].pd /\ (~o.pk \/ force \/ fs[d].mt > o.seen)
           all == ImKids(fs, p, Anc(p), ref)
           stay == IF FixVanish THEN {} ELSE {k \in o.kids : fs[d].has /\ k \in Rng(fs[d].lines)}
       IN [pk |-> pk, ref |-> ref,
           known |-> IF look THEN ListPacks(fs, d) ELSE IF pk THEN o.known ELSE {},
           seen |-> IF look THEN fs[d].mt ELSE o.seen, kids |-> all \union stay]
ImTree(fs, old, fp) ==   \* fp = <<force, p>>
  LET force == fp[1] p == fp[2] n == ImNode(fs, p, old, force) IN
  IF Len(p) > Fuel THEN {<<p, n>>}
  ELSE {<<p, n>>} \union UNION {ImTree(fs, old, <<force, Append(p, k)>>) : k \in n.kids}
ImAll(fs, old, force) == LET S == UNION {ImTree(fs, old, <<force, <<r>> >>) : r \in 1..Len(Roots)}
                         IN [p \in {x[1] : x \in S} |-> (CHOOSE x \in S : x[1] = p)[2]]
\* refreshing fails where a known directory can't be read any more
ImRefreshOut(fs, tree) == IF \E p \in DOMAIN tree : Len(p) > Fuel THEN "RecursionError"
                          ELSE IF \E p \in DOMAIN tree : ~fs[PDir(Cfg, p)].ex THEN "InvalidDBRoot"
                          ELSE IF \E p \in DOMAIN tree : tree[p].pk /\ ~fs[PDir(Cfg, p)].pd THEN "FileNotFoundError" ELSE "ok"
ImHas(fs, m, o) ==
  IF ~FixCache /\ o \in m.dbc THEN "found"
  ELSE IF \E p \in DOMAIN m.tree : o \in PObjs(Cfg, m.tree[p].known) \/ o \in LooseOf(Cfg, fs, p)
                               \/ (~FixLoose /\ HasLoose(PType(Cfg, p)) /\ <<PDir(Cfg, p), o>> \in m.lc) THEN "found"
  ELSE IF \E p \in DOMAIN m.tree : Len(p) > Fuel THEN "RecursionError"
  ELSE IF \E p \in DOMAIN m.tree : m.tree[p].known \ fs[PDir(Cfg, p)].idxs # {} THEN "FileNotFoundError"
  ELSE "BadObject"
ImAsk(fs, m) == [m EXCEPT !.dbc = IF Single /\ Roots[1].t \in {"packed", "loose"} THEN {} ELSE {o \in 1..NO : ImHas(fs, m, o) = "found"},
                          !.lc = @ \union {x \in (Dirs \X (1..NO)) : x[2] \in fs[x[1]].loose}]
NoIm == [tree |-> <<>>, dbc |-> {}, lc |-> {}, out |-> "ok"]

\* ---- behaviours
Do(e) == /\ WithImpl \/ Len(hist) < Len_
         /\ cs' = StorageApply(cs, e)
         /\ hist' = IF WithImpl THEN hist ELSE Append(hist, e)
EnvDo(e) == nenv < MaxEnv /\ Do(e) /\ nenv' = nenv + 1 /\ UNCHANGED <<im, nops>>
E0 == [op |-> "env", what |-> "", d |-> 1, o |-> 0, mt |-> 0, lines |-> <<>>]
fs == cs.fs
PDirs == {d \in Dirs : fs[d].ex /\ fs[d].pd}
Ex == {d \in Dirs : fs[d].ex}
Alone == {Roots[r].d : r \in 1..Len(Roots)} \union {1}
\* directories which are more than packs
Whole == {d \in Ex : \A r \in 1..Len(Roots) : Roots[r].d = d => Roots[r].t \notin {"packed", "mem", "loose"}}
LooseD == {d \in Ex : \A r \in 1..Len(Roots) : Roots[r].d = d => Roots[r].t # "packed"}
MemD == {d \in Dirs : \E r \in 1..Len(Roots) : Roots[r].d = d /\ Roots[r].t = "mem"}
Stamped(e) == \E adv \in {TRUE, FALSE} : /\ clock' = clock + (IF adv THEN 1 ELSE 0)
                                         /\ EnvDo([e EXCEPT !.mt = clock'])
Keep(e) == EnvDo(e) /\ UNCHANGED clock
LooseEnv == \/ \E d \in LooseD, o \in 1..NO : o \notin fs[d].loose /\ Keep([E0 EXCEPT !.what = "loose+", !.d = d, !.o = o])
            \/ \E d \in LooseD \ MemD : \E o \in fs[d].loose : Keep([E0 EXCEPT !.what = "loose-", !.d = d, !.o = o])
PackEnv == \E d \in PDirs, k \in Packs :
            \/ k \notin fs[d].packs \union fs[d].idxs /\ Stamped([E0 EXCEPT !.what = "pack+", !.d = d, !.o = k])
            \/ k \in fs[d].packs \cap fs[d].idxs /\ Stamped([E0 EXCEPT !.what = "pack-", !.d = d, !.o = k])
            \/ k \notin fs[d].packs /\ Stamped([E0 EXCEPT !.what = "file+", !.d = d, !.o = k])
            \/ k \notin fs[d].idxs /\ Stamped([E0 EXCEPT !.what = "idx+", !.d = d, !.o = k])
            \/ k \in fs[d].packs /\ k \in fs[d].idxs /\ Stamped([E0 EXCEPT !.what = "idx-", !.d = d, !.o = k])
            \/ k \in fs[d].packs /\ Stamped([E0 EXCEPT !.what = "file-", !.d = d, !.o = k])
RepackEnv == \E d \in PDirs, k \in Packs : /\ fs[d].packs \cap fs[d].idxs # {} /\ PObjs(Cfg, fs[d].packs \cap fs[d].idxs) \subseteq Rng(PackObjs[k])
                                           /\ Stamped([E0 EXCEPT !.what = "repack", !.d = d, !.o = k])
TouchEnv == \E d \in PDirs : Stamped([E0 EXCEPT !.what = "touch", !.d = d])
DirEnv == \/ \E d \in Whole : ~fs[d].pd /\ Stamped([E0 EXCEPT !.what = "mkpd", !.d = d])
          \/ \E d \in Whole : fs[d].pd /\ Keep([E0 EXCEPT !.what = "rmpd", !.d = d])
          \/ \E d \in Dirs \ Ex : Keep([E0 EXCEPT !.what = "mkdir", !.d = d])
          \/ \E d \in Ex \ Alone : Keep([E0 EXCEPT !.what = "rmdir", !.d = d])
Listable == (Dirs \ MemD) \union Junk
AltLines == IF WithImpl THEN {<<>>} \union {<<a>> : a \in Listable} \union {<<a, b>> : a \in Listable, b \in Listable}
            ELSE LET R(n) == [j \in 1..n |-> RandomElement(IF RandomElement({TRUE, FALSE}) THEN Dirs \ MemD ELSE Listable)]
                 IN {<<>>, R(1), R(2), R(3), R(4)}
AltEnv == \/ \E d \in Whole, q \in AltLines : ~(fs[d].has /\ fs[d].lines = q) /\ Keep([E0 EXCEPT !.what = "alt", !.d = d, !.lines = q])
          \/ \E d \in Whole : fs[d].has /\ Keep([E0 EXCEPT !.what = "rmalt", !.d = d])

Refresh == /\ nops < MaxOps /\ nops' = nops + 1
           /\ \E force \in {TRUE, FALSE} :
                /\ Do([op |-> "refresh", force |-> force, out |-> "ok", ret |-> TRUE])
                /\ im' = IF ~WithImpl THEN im
                         ELSE LET t == ImAll(fs, im.tree, force) IN [im EXCEPT !.tree = t, !.dbc = {}, !.out = ImRefreshOut(fs, t)]
           /\ UNCHANGED <<nenv, clock>>
Query == /\ nops < MaxOps /\ nops' = nops + 1
         /\ \E how \in {"has", "in", "info", "stream", "hex", "size", "enum", "parts", "burst", "all"} :
              /\ WithImpl => how = "all"
              /\ \E o \in (IF WithImpl \/ how \in {"size", "enum", "parts", "burst", "all"} THEN {0} ELSE 0..NO) :
                   Do([op |-> IF how \in {"size", "enum", "parts", "burst"} THEN how ELSE "q", how |-> how, o |-> o])
         /\ im' = IF WithImpl THEN ImAsk(fs, im) ELSE im
         /\ UNCHANGED <<nenv, clock>>
Open == /\ ~WithImpl /\ nops < MaxOps /\ nops' = nops + 1 /\ Do([op |-> "open"]) /\ UNCHANGED <<im, nenv, clock>>

End == ~WithImpl /\ Len(hist) = Len_ /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<cs, im, nenv, nops, clock>>

Start == LET s0 == StorageInit(Cfg) IN
         /\ cs = (IF WithImpl THEN Sync(s0, "first") ELSE s0)
         /\ im = (IF WithImpl THEN [NoIm EXCEPT !.tree = ImAll(s0.fs, <<>>, TRUE)] ELSE NoIm)
Init == Start /\ hist = <<>> /\ nenv = 0 /\ nops = 0 /\ clock = 1
Next == \/ LooseEnv \/ PackEnv \/ RepackEnv \/ TouchEnv \/ DirEnv \/ AltEnv
        \/ Refresh \/ Query \/ Open \/ End
Spec == Init /\ [][Next]_vars
PrintHist == (hist # <<>> /\ hist[Len(hist)].op = "end") => PrintT(ToJson(hist))

\* every answer of the implementation is allowed
Answers == WithImpl => (im.out = "ok" /\ \A o \in 0..NO :
   StorageVerdict(cs, [op |-> "q", how |-> "has", o |-> o, out |-> ImHas(fs, im, o)]) = "")
\* after a complete refresh the contract allows exactly what is there
RefreshIsExact == cs.status = "on" => LET s == Sync(cs, "force") IN
   /\ Must(s) = s.since /\ s.since = Present(Cfg, fs, Paths(Cfg, fs)) /\ (Circular(Cfg, fs) \/ Certain(s))
\* and it never asks for more than it allows
Consistent == cs.status = "on" => Must(cs) \subseteq cs.since
===============================================================================
