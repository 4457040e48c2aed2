------------------------------- MODULE EnumsModel -------------------------------
EXTENDS Enums
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
TablesInv == TablesOK
=============================================================================
