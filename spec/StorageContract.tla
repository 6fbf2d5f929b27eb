---------------------------- MODULE StorageContract ----------------------------
(* What databases over object directories answer while the directories change     *)
(* underneath (C13 packed, C14 composite, C15 alternates).                         *)
(*  cfg.nd     number of object directories                                        *)
(*  cfg.objs   objects: [type, size, c]; they are 1..Len, 0 is one never stored    *)
(*  cfg.packs  packs: the objects each holds                                       *)
(*  cfg.roots  the parts of the database under test: [d, t] with t one of          *)
(*             "packed" "loose" "mem" "git" "ref" (an alternates file of directory d)   *)
(*  cfg.single only one part, tested directly                                      *)
(* The environment changes fs; the database knows what it found at its last        *)
(* refresh. An answer must find what has been there all along, may find what was    *)
(* there at some time since, and must not find anything else.                       *)
EXTENDS Integers, Sequences, FiniteSets

Rng(q) == {q[j] : j \in 1..Len(q)}
EmptyDir == [ex |-> FALSE, loose |-> {}, pd |-> FALSE, packs |-> {}, idxs |-> {}, mt |-> 0, has |-> FALSE, lines |-> <<>>]

HasAlt(t) == t \in {"git", "ref"}
HasPack(t) == t \in {"git", "packed"}
HasLoose(t) == t \in {"git", "loose", "mem"}

\* a path: the number of a part, then the alternates followed
PDir(c, p) == IF Len(p) = 1 THEN c.roots[p[1]].d ELSE p[Len(p)]
PType(c, p) == IF Len(p) = 1 THEN c.roots[p[1]].t ELSE "git"

Kids(c, fs, p, anc) == IF HasAlt(PType(c, p)) /\ fs[PDir(c, p)].has
                       THEN {k \in Rng(fs[PDir(c, p)].lines) : k \in 1..c.nd /\ k \notin anc /\ fs[k].ex} ELSE {}
RECURSIVE Exp(_, _, _, _)
Exp(c, fs, p, anc) == IF ~fs[PDir(c, p)].ex THEN {}
                      ELSE {p} \union UNION {Exp(c, fs, Append(p, k), anc \union {k}) : k \in Kids(c, fs, p, anc)}
Paths(c, fs) == UNION {Exp(c, fs, <<r>>, IF c.roots[r].t = "git" THEN {c.roots[r].d} ELSE {}) : r \in 1..Len(c.roots)}
\* some alternates lead back to where they are listed
Circular(c, fs) == \E p \in Paths(c, fs) : HasAlt(PType(c, p)) /\ fs[PDir(c, p)].has
                     /\ \E k \in Rng(fs[PDir(c, p)].lines) : \E j \in 1..Len(p) : k = PDir(c, SubSeq(p, 1, j))

Complete(fs, d) == IF fs[d].ex /\ fs[d].pd THEN fs[d].packs \cap fs[d].idxs ELSE {}
PObjs(c, ps) == UNION {Rng(c.packs[k]) : k \in ps}
LooseOf(c, fs, p) == IF HasLoose(PType(c, p)) /\ fs[PDir(c, p)].ex THEN fs[PDir(c, p)].loose ELSE {}
PacksOf(c, fs, p) == IF HasPack(PType(c, p)) THEN Complete(fs, PDir(c, p)) ELSE {}
Present(c, fs, ps) == UNION {LooseOf(c, fs, p) \union PObjs(c, PacksOf(c, fs, p)) : p \in ps}

Loaded(c, fs, p) == LET k == PacksOf(c, fs, p) IN
   [pk |-> HasPack(PType(c, p)) /\ fs[PDir(c, p)].pd, known |-> k, stable |-> k, ever |-> k, seen |-> fs[PDir(c, p)].mt, pend |-> FALSE]

StorageInit(c) ==
  [c |-> c,
   fs |-> [d \in 1..c.nd |-> IF d = 1 \/ (\E r \in 1..Len(c.roots) : c.roots[r].d = d) THEN [EmptyDir EXCEPT !.ex = TRUE, !.pd = TRUE] ELSE EmptyDir],
   status |-> "fresh", unc |-> FALSE, par |-> <<>>, since |-> {}, lost |-> FALSE, ordr |-> <<>>, ordok |-> TRUE, moved |-> FALSE]

\* the parts after looking at everything (again); how: "first", "force" or "plain"
Part(s, p, how) ==
  LET fs == s.fs  c == s.c  new == Loaded(c, fs, p) IN
  IF how = "first" \/ p \notin DOMAIN s.par THEN new
  ELSE LET old == s.par[p] IN
       IF ~new.pk \/ ~old.pk \/ how = "force" \/ new.seen > old.seen THEN new
       ELSE [old EXCEPT !.pend = FALSE, !.ever = @ \union (IF s.unc THEN new.known ELSE {})]
Dedup(q) == LET RECURSIVE D(_) D(j) == IF j = 0 THEN <<>> ELSE LET r == D(j - 1) IN IF q[j] \in Rng(r) THEN r ELSE Append(r, q[j]) IN D(Len(q))
Sync(s, how) ==
  LET c == s.c
      ps == Paths(c, s.fs)
      np == [p \in ps |-> Part(s, p, how)]
      kids == IF <<1>> \in ps THEN {p[2] : p \in {q \in ps : Len(q) = 2 /\ q[1] = 1}} ELSE {}
      d1 == c.roots[1].d
      kept == IF how = "first" THEN <<>> ELSE SelectSeq(s.ordr, LAMBDA k : k \in kids)
      fresh == SelectSeq(Dedup(s.fs[d1].lines), LAMBDA k : k \in kids /\ k \notin Rng(kept))
  IN [s EXCEPT !.status = "on", !.par = np, !.moved = FALSE,
       !.lost = \E p \in ps : \E k \in np[p].known \union np[p].ever : k \notin PacksOf(c, s.fs, p),
       !.unc = IF how = "plain" THEN @ /\ ps # {} ELSE FALSE,
       !.since = Present(c, s.fs, ps) \union UNION {PObjs(c, np[p].known \union np[p].ever) : p \in ps},
       !.ordr = kept \o fresh,
       !.ordok = how = "first" \/ (s.ordok /\ ~s.moved /\ ~s.unc)]

\* ---- environment
FsStep(fs, e) ==
  LET d == e.d IN
  CASE e.what = "loose+" -> [fs EXCEPT ![d].loose = @ \union {e.o}]
    [] e.what = "loose-" -> [fs EXCEPT ![d].loose = @ \ {e.o}]
    [] e.what = "pack+" -> [fs EXCEPT ![d].packs = @ \union {e.o}, ![d].idxs = @ \union {e.o}, ![d].mt = e.mt]
    [] e.what = "pack-" -> [fs EXCEPT ![d].packs = @ \ {e.o}, ![d].idxs = @ \ {e.o}, ![d].mt = e.mt]
    [] e.what = "file+" -> [fs EXCEPT ![d].packs = @ \union {e.o}, ![d].mt = e.mt]
    [] e.what = "file-" -> [fs EXCEPT ![d].packs = @ \ {e.o}, ![d].mt = e.mt]
    [] e.what = "idx+" -> [fs EXCEPT ![d].idxs = @ \union {e.o}, ![d].mt = e.mt]
    [] e.what = "idx-" -> [fs EXCEPT ![d].idxs = @ \ {e.o}, ![d].mt = e.mt]
    [] e.what = "repack" -> \* all packs replaced by pack o, which holds their objects
         [fs EXCEPT ![d].packs = {e.o}, ![d].idxs = {e.o}, ![d].mt = e.mt]
    [] e.what = "touch" -> [fs EXCEPT ![d].mt = e.mt]
    [] e.what = "mkpd" -> [fs EXCEPT ![d].pd = TRUE, ![d].mt = e.mt]
    [] e.what = "rmpd" -> [fs EXCEPT ![d].pd = FALSE, ![d].packs = {}, ![d].idxs = {}]
    [] e.what = "mkdir" -> [fs EXCEPT ![d] = [EmptyDir EXCEPT !.ex = TRUE]]
    [] e.what = "rmdir" -> [fs EXCEPT ![d] = EmptyDir]
    [] e.what = "alt" -> [fs EXCEPT ![d].has = TRUE, ![d].lines = e.lines]
    [] e.what = "rmalt" -> [fs EXCEPT ![d].has = FALSE, ![d].lines = <<>>]

Env(s, e) ==
  LET c == s.c
      fs == FsStep(s.fs, e)
      ps == Paths(c, fs)
      par == [p \in DOMAIN s.par |->
                LET o == s.par[p] k == PacksOf(c, fs, p) IN
                [o EXCEPT !.stable = @ \cap k, !.ever = @ \union k, !.pend = @ \/ p \notin ps]]
      gone == \E p \in DOMAIN s.par : (~fs[PDir(c, p)].ex) \/ (s.par[p].pk /\ ~fs[PDir(c, p)].pd)
                                      \/ \E k \in s.par[p].known \union s.par[p].ever : k \notin PacksOf(c, fs, p)
                \/ (s.unc /\ e.what \in {"rmdir", "rmpd", "pack-", "file-", "idx-", "repack"})
  IN IF s.status = "fresh" THEN [s EXCEPT !.fs = fs]
     ELSE [s EXCEPT !.fs = fs, !.par = par, !.lost = @ \/ gone, !.moved = @ \/ e.what = "rmdir", 
        \* loose objects are asked for anew every time; packs may be remembered
        !.since = (IF s.unc THEN @ ELSE UNION {PObjs(c, par[p].known \union par[p].ever) : p \in DOMAIN par})
                  \union Present(c, fs, ps \union {p \in DOMAIN par : fs[PDir(c, p)].ex})]

\* ---- a database operation begins: what has not been loaded yet is loaded now, or perhaps later
Full(e) == e.op \in {"size", "enum", "parts", "refresh"}
Begin(s, e) ==
  LET s1 == IF s.status = "fresh" THEN [Sync(s, "first") EXCEPT !.unc = ~Full(e) /\ ~(s.c.single /\ s.c.roots[1].t \in {"packed", "loose", "mem"})] ELSE s
  IN IF s1.unc THEN [s1 EXCEPT !.par = [p \in DOMAIN @ |-> IF s1.fs[PDir(s1.c, p)].mt > @[p].seen THEN [@[p] EXCEPT !.seen = s1.fs[PDir(s1.c, p)].mt] ELSE @[p]]]
     ELSE s1

Must(s) == UNION {PObjs(s.c, s.par[p].stable) \union (IF s.par[p].pend THEN {} ELSE LooseOf(s.c, s.fs, p)) : p \in {q \in DOMAIN s.par : ~s.par[q].pend}}
\* nothing has changed that the database may not know
Certain(s) == /\ s.status = "on" /\ ~s.unc /\ DOMAIN s.par = Paths(s.c, s.fs) /\ ~Circular(s.c, s.fs)
              /\ \A p \in DOMAIN s.par : /\ s.par[p].known = PacksOf(s.c, s.fs, p) /\ s.par[p].ever = s.par[p].known
                                         /\ s.par[p].stable = s.par[p].known /\ ~s.par[p].pend
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Count(s, o) == SumOver([p \in DOMAIN s.par |-> (IF o \in LooseOf(s.c, s.fs, p) THEN 1 ELSE 0)
                                               + Cardinality({k \in s.par[p].known : o \in Rng(s.c.packs[k])})], DOMAIN s.par)
Total(s) == SumOver([o \in 1..Len(s.c.objs) |-> Count(s, o)], 1..Len(s.c.objs))

\* did a refresh of a single packed part have to look?
Looks(s, e) == e.force \/ s.status = "fresh" \/ s.fs[s.c.roots[1].d].mt > s.par[<<1>>].seen

StorageVerdict(s0, e) ==
  IF e.op \in {"env", "open"} THEN ""
  ELSE IF e.op = "refresh" THEN
     IF e.out # "ok" THEN "refresh-raised-" \o e.out
     ELSE IF s0.c.single /\ s0.c.roots[1].t = "packed" /\ e.ret # Looks(s0, e) THEN
          (IF e.ret THEN "refresh-claims-to-have-looked" ELSE "refresh-does-not-report-that-it-looked")
     ELSE ""
  ELSE LET s == Begin(s0, e) IN
  CASE e.op = "q" ->
       IF e.out = "found" THEN
          IF e.o \notin s.since THEN "absent-object-found-by-" \o e.how
          ELSE LET ob == s.c.objs[e.o] IN
               IF e.how \in {"info", "stream"} /\ (e.type # ob.type \/ e.size # ob.size) THEN "wrong-" \o e.how
               ELSE IF e.how = "stream" /\ e.c # ob.c THEN "wrong-content"
               ELSE IF e.how = "hex" /\ e.c # "same" THEN "wrong-id" ELSE ""
       ELSE IF e.out = "BadObject" THEN (IF e.o \in Must(s) THEN "present-object-missing-by-" \o e.how ELSE "")
       ELSE IF s.lost THEN "" ELSE e.how \o "-raised-" \o e.out
    [] e.op = "burst" ->
       IF \E j \in 1..Len(e.rs) : e.rs[j].yes > 0 /\ e.rs[j].o \notin s.since THEN "absent-object-found-in-burst"
       ELSE IF \E j \in 1..Len(e.rs) : e.rs[j].no > 0 /\ e.rs[j].o \in Must(s) THEN "present-object-missing-in-burst"
       ELSE IF ~s.lost /\ \E j \in 1..Len(e.rs) : e.rs[j].err > 0 THEN "burst-raised" ELSE ""
    [] e.op = "size" ->
       IF e.out # "ok" THEN (IF s.lost THEN "" ELSE "size-raised-" \o e.out)
       ELSE IF Certain(s) /\ e.n # Total(s) THEN "wrong-size" ELSE ""
    [] e.op = "enum" ->
       IF e.out # "ok" THEN (IF s.lost THEN "" ELSE "enumeration-raised-" \o e.out)
       ELSE IF e.alien > 0 THEN "enumerates-unknown-object"
       ELSE IF \E o \in 1..Len(s.c.objs) : e.cnt[o] > 0 /\ o \notin s.since THEN "enumerates-absent-object"
       ELSE IF \E o \in Must(s) : e.cnt[o] = 0 THEN "enumeration-misses-object"
       ELSE IF Certain(s) /\ \E o \in 1..Len(s.c.objs) : e.cnt[o] # Count(s, o) THEN "enumeration-not-the-sum" ELSE ""
    [] e.op = "parts" ->      \* the alternates consulted, in order
       IF e.out # "ok" THEN (IF s.lost THEN "" ELSE "alternates-raised-" \o e.out)
       ELSE IF s.unc \/ Circular(s.c, s.fs) THEN ""
       ELSE IF Rng(e.ds) # Rng(s.ordr) \/ Len(e.ds) # Len(s.ordr) THEN "wrong-alternates"
       ELSE IF s.ordok /\ e.ds # s.ordr THEN "wrong-order-of-alternates" ELSE ""
    [] OTHER -> "unexpected-" \o e.op

StorageApply(s0, e) ==
  CASE e.op = "env" -> Env(s0, e)
    [] e.op = "open" -> [s0 EXCEPT !.status = "fresh", !.par = <<>>, !.lost = FALSE, !.unc = FALSE, !.since = {}]
    [] e.op = "refresh" -> IF s0.status = "fresh" THEN Sync(s0, "first") ELSE Sync(s0, IF e.force THEN "force" ELSE "plain")
    [] OTHER -> Begin(s0, e)
StorageEnd(s) == ""
===============================================================================
