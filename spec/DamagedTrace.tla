----------------------------- MODULE DamagedTrace -----------------------------
EXTENDS DamagedContract, TraceLib
===============================================================================
