SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS T01 T03 T04
