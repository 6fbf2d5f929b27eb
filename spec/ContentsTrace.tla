----------------------------- MODULE ContentsTrace ------------------------------
EXTENDS ContentsContract, TraceLib
===============================================================================
