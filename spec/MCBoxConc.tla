----------------------------- MODULE MCBoxConc -----------------------------
EXTENDS BoxConc
View == <<arch, path, idx, journal, lock, pc, conn, cur, todo, gone, result>>
=============================================================================
