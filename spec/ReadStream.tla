------------------------------ MODULE ReadStream ------------------------------
(* The contract as a state machine; used to generate histories of operations.   *)
EXTENDS ReadStreamContract, TLC, Json

CONSTANTS MaxLen, Sizes, MaxOps
VARIABLES len, pos, hist

SInit == len \in 0..MaxLen /\ pos = 0 /\ hist = <<>>
DoRead(n) == LET k == Want(len, pos, n) IN pos' = pos + k /\ hist' = Append(hist, [op |-> "read", n |-> n])
DoSeek == pos' = 0 /\ hist' = Append(hist, [op |-> "seek", n |-> 0])
DoClen == UNCHANGED pos /\ hist' = Append(hist, [op |-> "clen", n |-> 0])
SNext == /\ Len(hist) < MaxOps /\ UNCHANGED len
         /\ (\E n \in Sizes : DoRead(n)) \/ DoSeek \/ DoClen
SSpec == SInit /\ [][SNext]_<<len, pos, hist>>

TypeOK == pos \in 0..len
\* nothing comes only at the end, and only then
PrintHist == Len(hist) = MaxOps => PrintT(ToJson(hist))
EmptyOnlyAtEnd == \A n \in Sizes : (Want(len, pos, n) = 0) <=> (pos = len)
===============================================================================
