SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitHistory
INVARIANTS H01 H02 H03
