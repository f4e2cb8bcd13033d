SPECIFICATION Fair
CHECK_DEADLOCK FALSE
INVARIANTS T01 T04
PROPERTIES T04_Finishes
