----------------------------- MODULE EncodingTrace ------------------------------
EXTENDS EncodingContract, TraceLib
===============================================================================
