----------------------------- MODULE MCZipCache -----------------------------
EXTENDS ZipCache, TLC
CONSTANT MaxSteps
Bound == clock < MaxSteps
\* only the order of uses matters
Rank(f) == Cardinality({g \in Files : last[g] > 0 /\ last[g] <= last[f]})
View == <<open, [f \in Files |-> IF last[f] = 0 THEN 0 ELSE Rank(f)], content>>
=============================================================================
