--------------------------- MODULE ObjectStoreTrace ---------------------------
EXTENDS ObjectStoreContract, TraceLib
===============================================================================
