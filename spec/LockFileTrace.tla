----------------------------- MODULE LockFileTrace -----------------------------
EXTENDS LockFileContract, TraceLib
===============================================================================
