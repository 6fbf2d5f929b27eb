----------------------------- MODULE StorageTrace -----------------------------
EXTENDS StorageContract, TraceLib
===============================================================================
