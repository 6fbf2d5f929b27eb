------------------------------ MODULE StorageGen ------------------------------
EXTENDS Storage
P2 == << <<1>>, <<1, 2>> >>
P5 == << <<1, 2>>, <<2, 3>>, <<4>>, <<1, 2, 3, 4>>, <<5, 6, 1, 2, 3, 4>>, <<>> >>
RPacked == <<[d |-> 1, t |-> "packed"]>>
RLoose == <<[d |-> 1, t |-> "loose"]>>
RGit == <<[d |-> 1, t |-> "git"]>>
RRef == <<[d |-> 1, t |-> "ref"]>>
RComp == <<[d |-> 1, t |-> "packed"], [d |-> 2, t |-> "loose"], [d |-> 3, t |-> "git"]>>
RComp2 == <<[d |-> 2, t |-> "mem"], [d |-> 1, t |-> "git"], [d |-> 3, t |-> "packed"]>>
===============================================================================
