--------------------------- MODULE PackCreateTrace -----------------------------
EXTENDS PackCreateContract, TraceLib
===============================================================================
