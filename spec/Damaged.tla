-------------------------------- MODULE Damaged -------------------------------
(* Reading an object whose compressed bytes end too early, can't be decoded from some   *)
(* place on, or hold more or less than is declared (C25). The reader is that of           *)
(* WindowReader, feeding an inflate engine through windows as large as what is asked for;    *)
(* on it, a delta (which reads all of its base at once) and a copier (which reads pieces        *)
(* until there are no more) are built.                                                          *)
(* Negative controls:                                                                            *)
(*   FixShort  a read which gets less than there should be raises (as found it returned less)     *)
(*   FixHdr    a header has to end (as found, everything but the last byte was taken for it)        *)
(*   FixMore   a window without any output is not the end                                            *)
(*   FixCopy   a copier compares what it got with what was declared                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxC, MaxProd, MaxHdr, Decl, Sizes, MaxOps, MinWin, HdrWin, FixShort, FixHdr, FixMore, FixCopy, Gen

VARIABLES obj, r, s, ans, nops, hist
vars == <<obj, r, s, ans, nops, hist>>

C == INSTANCE DamagedContract

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

\* cut: compressed bytes which are there; bad: the one which can't be decoded (0: none); decl: declared size of the content
Objects == [prod: UNION {[1..c -> 0..MaxProd] : c \in 1..MaxC}, hdr: 1..MaxHdr, decl: Decl, cut: 0..MaxC, bad: 0..MaxC]
Proper(o) == o.cut <= Len(o.prod) /\ o.bad <= o.cut /\ SumTo(o.prod, Len(o.prod)) >= o.hdr
Whole(o) == SumTo(o.prod, Len(o.prod)) - o.hdr
Good(o) == IF o.bad = 0 THEN o.cut ELSE o.bad - 1
Avail(o) == SumTo(o.prod, Good(o))
Entry(o) == [hdr |-> Avail(o) >= o.hdr, t |-> "blob", n |-> o.decl, real |-> Max2(0, Min2(o.decl, Avail(o) - o.hdr)),
             intact |-> o.cut = Len(o.prod) /\ o.bad = 0 /\ o.decl = Whole(o)]

NewZ == [zin |-> 0, zout |-> 0, tail |-> 0, err |-> FALSE]
Eof(o, z) == z.zin = Len(o.prod) /\ z.zout = SumTo(o.prod, Len(o.prod))
RECURSIVE Inflate(_, _, _, _, _)
Inflate(o, z, ws, we, max) ==
  LET avail == SumTo(o.prod, z.zin) - z.zout
      n == Min2(avail, max)
      z1 == [z EXCEPT !.zout = @ + n] IN
  IF z.err THEN [z |-> z, n |-> 0]
  ELSE IF ws >= we THEN [z |-> [z1 EXCEPT !.tail = 0], n |-> n]
  ELSE IF Eof(o, z1) THEN [z |-> [z1 EXCEPT !.tail = 0], n |-> n]
  ELSE IF max - n = 0 THEN [z |-> [z1 EXCEPT !.tail = we - ws], n |-> n]
  ELSE IF z1.zin + 1 = o.bad THEN [z |-> [z1 EXCEPT !.err = TRUE], n |-> 0]
  ELSE LET more == Inflate(o, [z1 EXCEPT !.zin = @ + 1], ws + 1, we, max - n)
       IN [z |-> more.z, n |-> n + more.n]

NewR == [size |-> 0, br |-> 0, z |-> NewZ, buf |-> 0, cws |-> 0, cwe |-> 0, at |-> 0, err |-> FALSE]
\* what a read gets: [r, n, bytes from, err]
RECURSIVE Raw(_, _, _)
Raw(o, x, want) ==
  LET size == Min2(want, x.size - x.br) IN
  IF size = 0 THEN [r |-> x, n |-> 0]
  ELSE IF x.buf >= size THEN [r |-> [x EXCEPT !.buf = @ - size, !.br = @ + size], n |-> size]
  ELSE LET fromb == x.buf
           x1 == [x EXCEPT !.buf = 0, !.br = @ + fromb]
           left == size - fromb
           ws == IF x1.z.tail > 0 THEN x1.cwe - x1.z.tail ELSE x1.cwe
           we0 == IF x1.z.tail > 0 THEN ws + left ELSE x1.cws + left
           we == Min2(Max2(we0, ws + MinWin), o.cut)
           i == Inflate(o, x1.z, ws, we, left)
           x2 == [x1 EXCEPT !.z = i.z, !.cws = ws, !.cwe = Max2(ws, we), !.br = @ + i.n, !.err = i.z.err]
           missing == left - i.n IN
       IF i.z.err THEN [r |-> x2, n |-> 0]
       ELSE IF missing > 0 /\ we > ws /\ ~Eof(o, i.z) /\ (FixMore \/ i.n > 0)
            THEN LET more == Raw(o, x2, missing) IN [r |-> more.r, n |-> fromb + i.n + more.n]
            ELSE [r |-> x2, n |-> fromb + i.n]

\* the header is looked for in the first bytes; what follows it is kept
Opened(o) ==
  LET a == Raw(o, [NewR EXCEPT !.size = HdrWin], HdrWin) IN
  IF a.r.err THEN [a.r EXCEPT !.err = TRUE]
  ELSE IF a.n >= o.hdr THEN [a.r EXCEPT !.size = o.decl, !.br = 0, !.buf = a.n - o.hdr]
  ELSE IF FixHdr \/ a.n < 2 THEN [a.r EXCEPT !.err = TRUE]
  ELSE [a.r EXCEPT !.size = o.decl, !.br = 0, !.buf = 0]      \* something was taken for a type and a size

\* one read call: [r, out, got]
ReadCall(o, x, n) ==
  LET left == x.size - x.br
      want == IF n < 1 THEN left ELSE Min2(n, left)
      a == Raw(o, x, want) IN
  IF a.r.err THEN [r |-> [a.r EXCEPT !.err = FALSE], out |-> "error", got |-> 0]
  ELSE IF a.n < want /\ FixShort THEN [r |-> a.r, out |-> "error", got |-> 0]
  ELSE [r |-> a.r, out |-> "ok", got |-> a.n]

RECURSIVE CopyAll(_, _, _, _)
CopyAll(o, x, piece, sum) ==
  LET a == ReadCall(o, x, piece) IN
  IF a.out # "ok" THEN -1 ELSE IF a.got = 0 THEN sum ELSE CopyAll(o, a.r, piece, sum + a.got)

Pick(A) == IF Gen THEN {RandomElement(A)} ELSE A
See(e) == /\ ans' = [e |-> e, v |-> C!DamagedVerdict(s, e)] /\ s' = C!DamagedApply(s, e)
Note(w, x) == hist' = Append(hist, [w |-> w, x |-> x])

Init == /\ obj \in (IF Gen THEN {[prod |-> <<1>>, hdr |-> 1, decl |-> 0, cut |-> 1, bad |-> 0]} ELSE {o \in Objects : Proper(o)})
        /\ r = [x |-> NewR, open |-> FALSE, lost |-> FALSE]
        /\ s = C!DamagedInit([objs |-> <<Entry(obj)>>])
        /\ ans = [e |-> [op |-> ""], v |-> ""] /\ nops = 0 /\ hist = <<>>

Open == LET x == Opened(obj) IN
  /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED obj
  /\ Gen \/ ~r.open
  /\ Note("open", 0)
  /\ r' = [x |-> [x EXCEPT !.err = FALSE], open |-> ~x.err, lost |-> FALSE]
  /\ See([op |-> "open", o |-> 1, out |-> IF x.err THEN "error" ELSE "ok", t |-> "blob", n |-> obj.decl])

Read == \E n \in Pick(Sizes) :
  /\ r.open /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED obj
  /\ Note("read", n)
  /\ LET a == ReadCall(obj, r.x, n) IN
     /\ r' = [r EXCEPT !.x = a.r, !.lost = @ \/ a.out # "ok"]
     /\ See([op |-> "read", s |-> Len(s.str), n |-> n, out |-> a.out, got |-> a.got, right |-> (~r.lost \/ a.got = 0)])

Rewind ==
  /\ r.open /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED obj
  /\ Note("rewind", 0)
  /\ LET x == Opened(obj) IN
     /\ r' = [r EXCEPT !.x = [x EXCEPT !.err = FALSE], !.lost = FALSE]
     /\ See([op |-> "rewind", s |-> Len(s.str), out |-> IF x.err THEN "error" ELSE "ok"])

\* a delta whose result is as long as its base, made of it
Delta ==
  /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<obj, r>>
  /\ Note("info", 0)
  /\ LET x == Opened(obj)
         a == ReadCall(obj, x, 0)
         ok == ~x.err /\ a.out = "ok" IN
     See([op |-> "copy", o |-> 1, out |-> IF ok THEN "ok" ELSE "error", there |-> IF ~ok THEN "no" ELSE IF a.got = obj.decl THEN "right" ELSE "wrong"])

Copy == \E p \in Pick(Sizes \ {0}) :
  /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<obj, r>>
  /\ Note("copy", p)
  /\ LET x == Opened(obj)
         got == IF x.err THEN -1 ELSE CopyAll(obj, x, p, 0)
         ok == got >= 0 /\ (~FixCopy \/ got = obj.decl) IN
     See([op |-> "copy", o |-> 1, out |-> IF ok THEN "ok" ELSE "error", there |-> IF ~ok THEN "no" ELSE IF got = obj.decl THEN "right" ELSE "wrong"])

Stop == /\ Gen /\ nops = MaxOps /\ nops' = nops + 1 /\ Note("end", 0) /\ UNCHANGED <<obj, r, s, ans>>

Next == Open \/ Read \/ Rewind \/ Delta \/ Copy \/ Stop
Spec == Init /\ [][Next]_vars

Allowed == ans.v = ""
View == <<obj, r, s, ans>>
PrintCase == (Gen /\ hist # <<>> /\ hist[Len(hist)].w = "end") => PrintT(ToJson(hist))
===============================================================================
