-------------------------------- MODULE Delta ---------------------------------
(* Builds chains of deltas command by command (generation, exhaustive or         *)
(* random), optionally with one flaw; and an implementation-shaped model of      *)
(* merging a chain into one list of chunks (gitdb.fun.connect_deltas), which is  *)
(* checked against the meaning of the chain (C06).                               *)
EXTENDS DeltaContract, TLC, Json, FiniteSets

CONSTANTS MaxBase, MaxChain, MaxCmds, MaxLen,   \* MaxLen: units in an insert
          Flaw,                                 \* TRUE: exactly one flaw is built in
          DropRigid                             \* merge bug for the negative control

VARIABLES base, chain, src, cmds, content, open, flawed, done, nins
vars == <<base, chain, src, cmds, content, open, flawed, done, nins>>

Cut(c, off, len) == SubSeq(c, off + 1, IF off + len > Len(c) THEN Len(c) ELSE off + len)

Init == /\ \E n \in 0..MaxBase : base = [k \in 1..n |-> k]
        /\ chain = <<>> /\ src = 0 /\ cmds = <<>> /\ content = base
        /\ open = FALSE /\ flawed = FALSE /\ done = FALSE /\ nins = 0

Start(s, f) == /\ ~open /\ ~done /\ Len(chain) < MaxChain
               /\ open' = TRUE /\ src' = s /\ cmds' = <<>>
               /\ flawed' = (flawed \/ f)
               /\ UNCHANGED <<base, chain, content, done, nins>>

\* declared size of the base: right, or as the delta before declares, or off by one
StartAny == \/ Start(Len(content), FALSE)
            \/ chain # <<>> /\ chain[Len(chain)].dst # Len(content) /\ Start(chain[Len(chain)].dst, TRUE)
            \/ Flaw /\ ~flawed /\ \E s \in {Len(content) - 1, Len(content) + 1} : s >= 0 /\ Start(s, TRUE)

Cmd(c, f) == /\ open /\ ~done /\ Len(cmds) < MaxCmds
             /\ (IF cmds = <<>> THEN TRUE ELSE cmds[Len(cmds)].k # "t")
             /\ cmds' = Append(cmds, c)
             /\ flawed' = (flawed \/ f)
             /\ UNCHANGED <<base, chain, src, content, open, done>>

C(o, l) == [k |-> "c", off |-> o, len |-> l, ins |-> <<>>]
I(ins) == [k |-> "i", off |-> 0, len |-> 0, ins |-> ins]
X(k) == [k |-> k, off |-> 0, len |-> 0, ins |-> <<>>]

Copy == \E o \in 0..(src - 1) : \E l \in 1..(src - o) : Cmd(C(o, l), FALSE) /\ UNCHANGED nins
Insert == \E l \in 1..MaxLen : /\ Cmd(I([j \in 1..l |-> 1000 + nins + j]), FALSE)
                               /\ nins' = nins + l
Wild == Flaw /\ ~flawed /\ UNCHANGED nins /\
        \E o \in 0..(src + 1) : \E l \in {src - o + 1, src - o + 2} : l >= 1 /\ Cmd(C(o, l), TRUE)
Odd == Flaw /\ ~flawed /\ UNCHANGED nins /\ \E k \in {"r", "t"} : Cmd(X(k), TRUE)

\* what the commands written so far produce, as far as they make sense
RECURSIVE Produce(_, _)
Produce(c, q) == IF q = <<>> THEN <<>>
                 ELSE (CASE Head(q).k = "c" -> Cut(c, Head(q).off, Head(q).len)
                         [] Head(q).k = "i" -> Head(q).ins
                         [] OTHER -> <<>>) \o Produce(c, Tail(q))

Close == /\ open /\ ~done
         /\ LET p == Produce(content, cmds) IN
            /\ \E dst \in {Len(p)} \union (IF Flaw /\ ~flawed THEN {Len(p) - 1, Len(p) + 1, 0} ELSE {}) :
                 /\ dst >= 0
                 /\ chain' = Append(chain, [src |-> src, dst |-> dst, cmds |-> cmds])
                 /\ flawed' = (flawed \/ dst # Len(p))
            /\ content' = p
         /\ open' = FALSE
         /\ UNCHANGED <<base, src, cmds, done, nins>>

Finish == /\ ~open /\ ~done /\ chain # <<>> /\ (Flaw => flawed)
          /\ done' = TRUE /\ UNCHANGED <<base, chain, src, cmds, content, open, flawed, nins>>

Next == StartAny \/ Copy \/ Insert \/ Wild \/ Odd \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

Case == [base |-> base, chain |-> chain]
PrintCase == done => PrintT(ToJson(Case))

\* the generator is right about flaws
FlawMeansBad == done => (ApplyChain(base, chain).ok = ~flawed)
SizesAdd == done /\ ~flawed => ApplyChain(base, chain).v = content

--------------------------------------------------------------------------------
(* Merging, as gitdb.fun.connect_deltas does it. Chunk: [to, ts, so, data, d]     *)

Decode1(q) ==
  LET RECURSIVE D(_, _)
      D(r, tbw) == IF r = <<>> THEN <<>>
                   ELSE LET h == Head(r)
                            ts == IF h.k = "c" THEN h.len ELSE Len(h.ins)
                        IN <<[to |-> tbw, ts |-> ts, so |-> h.off, data |-> h.ins, d |-> h.k = "i"]>> \o D(Tail(r), tbw + ts)
  IN D(q, 0)

\* runs of three and more data chunks which a copy follows are joined
RECURSIVE Squeeze(_, _)
Squeeze(out, rest) ==
  IF rest = <<>> THEN out
  ELSE LET h == Head(rest)
           \* number of data chunks at the end of out
           RECURSIVE NData(_)
           NData(k) == IF k = 0 \/ ~out[k].d THEN 0 ELSE 1 + NData(k - 1)
           n == NData(Len(out))
           RECURSIVE Join(_)
           Join(q) == IF q = <<>> THEN <<>> ELSE SubSeq(Head(q).data, 1, Head(q).ts) \o Join(Tail(q))
       IN IF ~h.d /\ n > 2
          THEN LET keep == SubSeq(out, 1, Len(out) - n)
                   run == SubSeq(out, Len(out) - n + 1, Len(out))
                   j == Join(run)
               IN Squeeze(keep \o <<[to |-> run[1].to, ts |-> Len(j), so |-> 0, data |-> j, d |-> TRUE]>> \o <<h>>, Tail(rest))
          ELSE Squeeze(Append(out, h), Tail(rest))

\* binary search of the chunk holding target position ofs
RECURSIVE Bisect(_, _, _, _)
Bisect(q, ofs, lo, hi) ==
  IF lo >= hi THEN Len(q)
  ELSE LET mid == (lo + hi) \div 2
           c == q[mid + 1]
       IN IF c.to > ofs THEN Bisect(q, ofs, lo, mid)
          ELSE IF c.to + c.ts > ofs \/ c.to = ofs THEN mid + 1
          ELSE Bisect(q, ofs, mid + 1, hi)

MoveL(c, n) == [c EXCEPT !.to = @ + n, !.so = @ + n, !.ts = @ - n, !.data = IF c.d THEN SubSeq(@, n + 1, Len(@)) ELSE @]
MinI(a, b) == IF a < b THEN a ELSE b

Slice(q, ofs, size) ==
  LET k == Bisect(q, ofs, 0, Len(q))
      RECURSIVE Take(_, _)
      Take(j, left) == IF j > Len(q) \/ left = 0 THEN <<>>
                       ELSE IF q[j].ts <= left THEN <<q[j]>> \o Take(j + 1, left - q[j].ts)
                       ELSE <<[q[j] EXCEPT !.ts = left]>>
  IN IF q[k].to # ofs
     THEN LET t == MoveL(q[k], ofs - q[k].to)
              t2 == [t EXCEPT !.ts = MinI(@, size)]
          IN <<t2>> \o Take(k + 1, size - t2.ts)
     ELSE Take(k, size)

RECURSIVE Connect(_, _)
Connect(top, bot) ==
  IF top = <<>> THEN <<>>
  ELSE LET h == Head(top)
           s == Slice(bot, h.so, h.ts)
       IN (IF h.d THEN <<h>>
           ELSE [j \in 1..Len(s) |-> [s[j] EXCEPT !.to = @ + (h.to - h.so)]]) \o Connect(Tail(top), bot)

AllRigid(q) == \A j \in 1..Len(q) : q[j].d

RECURSIVE MergeDown(_, _)
\* top: what is merged so far, ds: deltas still to merge, newest first
MergeDown(top, ds) ==
  IF ds = <<>> THEN top
  ELSE IF DropRigid /\ top # <<>> /\ top[1].d THEN top
  ELSE LET m == Connect(top, Squeeze(<<>>, Decode1(ds[1].cmds)))
       IN IF AllRigid(top) THEN m ELSE MergeDown(m, Tail(ds))

Reverse(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
Merge(ds) == LET r == Reverse(ds) IN MergeDown(Squeeze(<<>>, Decode1(r[1].cmds)), Tail(r))

RECURSIVE ApplyChunks(_, _)
ApplyChunks(q, b) == IF q = <<>> THEN <<>>
                     ELSE (IF Head(q).d THEN SubSeq(Head(q).data, 1, Head(q).ts) ELSE Cut(b, Head(q).so, Head(q).ts))
                          \o ApplyChunks(Tail(q), b)

MergeMeansChain == done /\ ~flawed => ApplyChunks(Merge(chain), base) = ApplyChain(base, chain).v
MergeTiles == done /\ ~flawed =>
  LET m == Merge(chain) IN
    /\ \A j \in 1..Len(m) : m[j].ts > 0 /\ m[j].to = (IF j = 1 THEN 0 ELSE m[j-1].to + m[j-1].ts)
    /\ (IF m = <<>> THEN 0 ELSE m[Len(m)].to + m[Len(m)].ts) = chain[Len(chain)].dst
===============================================================================
