----------------------------- MODULE WindowReader -----------------------------
(* Implementation-shaped model of gitdb's DecompressMemMapReader: an inflate    *)
(* engine fed through a sliding window over compressed memory.                  *)
(* The engine is abstract: compressed byte j makes prod[j] plain bytes          *)
(* available. It stops as soon as it has delivered the requested number of      *)
(* bytes (keeping the rest internally and reporting the input it did not        *)
(* consume), and knows its end after the last compressed byte.                  *)
(* Plain bytes are identified by position; positions < Hdr are the header.      *)
(* Checked: every result refines the contract ReadStream.                       *)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxC, MaxProd, MaxU,        \* bounds on compressed length, bytes per input byte, plain size
          MaxHdr, Trail,              \* header sizes 0..MaxHdr (0: none), bytes that may follow in memory
          Sizes, MaxOps,
          MinWin, HdrWin, Page,       \* 8, 8192 and the page size of the code, scaled
          FixSeek, FixOver, FixEmpty, FixScrub, FixTail \* FALSE: behaviour of the code as first found

VARIABLES obj,      \* the object: [prod, u, hdr, trail]
          r,        \* reader state
          pos,      \* the contract's cursor
          last,     \* last observation
          nops

vars == <<obj, r, pos, last, nops>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

C(o) == Len(o.prod)
M(o) == C(o) + o.trail
Content(o) == o.u - o.hdr              \* bytes after the header

Objects == { o \in [prod: UNION {[1..c -> 0..MaxProd] : c \in 1..MaxC}, u: 0..MaxU, hdr: 0..MaxHdr, trail: Trail] :
               /\ o.u = SumTo(o.prod, Len(o.prod))
               /\ o.u >= o.hdr }

NewZ == [zin |-> 0, zout |-> 0, tail |-> 0, unused |-> 0]
Eof(o, z) == z.zin = C(o) /\ z.zout = o.u

\* z.decompress(memory[ws..we), max): max < 0 means unlimited. Consumes input until the output is complete.
RECURSIVE Inflate(_, _, _, _, _)
Inflate(o, z, ws, we, max) ==
  \* z.zin: compressed bytes consumed so far; input position must be ws for correct use
  LET avail == SumTo(o.prod, z.zin) - z.zout
      n == IF max < 0 THEN avail ELSE Min2(avail, max)
      z1 == [z EXCEPT !.zout = @ + n]
      left == IF max < 0 THEN -1 ELSE max - n
  IN IF ws >= we THEN [z |-> [z1 EXCEPT !.tail = 0], n |-> n]
     ELSE IF Eof(o, z1) THEN \* if there was a tail before, zlib reports the rest both as tail and as unused
          [z |-> [z1 EXCEPT !.tail = IF @ > 0 THEN we - ws ELSE 0, !.unused = @ + (we - ws)], n |-> n]
     ELSE IF left = 0 THEN [z |-> [z1 EXCEPT !.tail = we - ws], n |-> n]
     ELSE LET more == Inflate(o, [z1 EXCEPT !.zin = @ + 1], ws + 1, we, left)
          IN [z |-> more.z, n |-> n + more.n]

NoBuf == -1
\* reader: s (size, -1: unknown), br, z, bufat/buflen (buffered plain bytes), cws, cwe, cbr, phi
NewR(size) == [s |-> size, br |-> 0, z |-> NewZ, buf |-> NoBuf, buflen |-> 0, cws |-> 0, cwe |-> 0, cbr |-> 0,
               phi |-> FALSE]

\* a chunk of delivered plain bytes: sequence of positions
Interval(from, n) == [j \in 1..n |-> from + j - 1]

RECURSIVE Read(_, _, _, _)
Read(o, x, want, fuel) ==
  LET size == IF want < 1 THEN x.s - x.br ELSE Min2(want, x.s - x.br)
  IN IF fuel = 0 THEN [x |-> x, d |-> <<-9>>]            \* recursion does not end
     ELSE IF size = 0 THEN [x |-> x, d |-> <<>>]
     ELSE IF x.buf # NoBuf /\ x.buflen >= size
          THEN [x |-> [x EXCEPT !.buf = @ + size, !.buflen = @ - size, !.br = @ + size], d |-> Interval(x.buf, size)]
     ELSE
     LET dat  == IF x.buf # NoBuf THEN Interval(x.buf, x.buflen) ELSE <<>>
         x1   == IF x.buf # NoBuf THEN [x EXCEPT !.br = @ + x.buflen, !.buflen = 0, !.buf = NoBuf] ELSE x
         size1 == size - Len(dat)
         cws  == IF x1.z.tail > 0 THEN x1.cwe - x1.z.tail ELSE x1.cwe
         cwe0 == IF x1.z.tail > 0 THEN cws + size1 ELSE x1.cws + size1
         cwe1 == IF cwe0 - cws < MinWin THEN cws + MinWin ELSE cwe0
         cwe  == Max2(cws, Min2(cwe1, M(o)))
         inf  == Inflate(o, x1.z, cws, cwe, size1)
         x2   == [x1 EXCEPT !.z = inf.z, !.cws = cws, !.cwe = cwe,
                            !.cbr = @ + (cwe - cws) - (IF ~FixTail THEN inf.z.tail + inf.z.unused
                                                       ELSE IF Eof(o, inf.z) THEN inf.z.unused ELSE inf.z.tail),
                            !.br = @ + inf.n]
         out  == dat \o Interval(x1.z.zout, inf.n)
         again == IF FixEmpty
                  THEN /\ inf.n < size1 /\ x2.br < x2.s /\ cwe > cws /\ ~Eof(o, inf.z)
                  ELSE Len(out) > 0 /\ inf.n < size1 /\ x2.br < x2.s
         more == Read(o, x2, IF FixOver THEN size1 - inf.n ELSE size1 - Len(out), fuel - 1)
     IN IF again THEN [x |-> more.x, d |-> out \o more.d] ELSE [x |-> x2, d |-> out]

Fuel == 12

\* parse the header: read up to HdrWin bytes, keep what follows the header
Parse(o, x) ==
  LET a == Read(o, [x EXCEPT !.s = HdrWin], HdrWin, Fuel)
  IN [a.x EXCEPT !.s = Content(o), !.br = 0, !.buf = o.hdr, !.buflen = Len(a.d) - o.hdr, !.phi = TRUE]

Ready(o, x) == IF x.s < 0 THEN Parse(o, x) ELSE x

Seek(o, x) ==
  LET y == [x EXCEPT !.z = NewZ, !.br = 0, !.cws = 0, !.cwe = 0, !.cbr = 0]
      z == IF FixSeek THEN [y EXCEPT !.buf = NoBuf, !.buflen = 0] ELSE y
  IN IF x.phi THEN [z EXCEPT !.phi = FALSE, !.s = -1] ELSE z

RECURSIVE Scrub(_, _, _)
Scrub(o, x, fuel) ==
  IF fuel = 0 THEN [x |-> x, hang |-> TRUE]
  ELSE IF x.z.unused > 0 \/ x.cbr = M(o) \/ (FixScrub /\ Eof(o, x.z))
       THEN [x |-> [x EXCEPT !.br = x.s], hang |-> FALSE]
       ELSE LET a == Read(o, IF FixScrub THEN [x EXCEPT !.br = -Page] ELSE x, Page, Fuel)
            IN Scrub(o, a.x, fuel - 1)

Clen(o, x) ==
  IF x.br = x.s /\ x.z.unused = 0
  THEN LET a == Scrub(o, [x EXCEPT !.br = 0], 8)
       IN [x |-> a.x, v |-> IF a.hang THEN -1 ELSE a.x.cbr]
  ELSE [x |-> x, v |-> x.cbr]

Init == /\ obj \in Objects
        /\ r = IF obj.hdr > 0 THEN NewR(-1) ELSE NewR(obj.u)
        /\ pos = 0 /\ last = [op |-> "none"] /\ nops = 0

Want(n) == IF n < 1 THEN Content(obj) - pos ELSE Min2(n, Content(obj) - pos)

DoRead(n) == LET a == Read(obj, Ready(obj, r), n, Fuel) IN
   /\ r' = a.x
   /\ last' = [op |-> "read", d |-> a.d, want |-> Interval(obj.hdr + pos, Want(n))]
   /\ pos' = pos + Want(n)
DoSeek == r' = Seek(obj, Ready(obj, r)) /\ pos' = 0 /\ last' = [op |-> "seek"]
DoClen == LET a == Clen(obj, Ready(obj, r)) IN
   /\ r' = a.x /\ UNCHANGED pos
   /\ last' = [op |-> "clen", v |-> a.v, full |-> pos = Content(obj)]

Next == /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED obj
        /\ (\E n \in Sizes : DoRead(n)) \/ DoSeek \/ DoClen

Spec == Init /\ [][Next]_vars

ReadExact == last.op = "read" => last.d = last.want
CLenExact == last.op = "clen" /\ last.full => last.v = C(obj)
CLenTerminates == last.op = "clen" => last.v >= 0
===============================================================================
