--------------------------- MODULE WriteStreamTrace -----------------------------
EXTENDS WriteStreamContract, TraceLib
===============================================================================
