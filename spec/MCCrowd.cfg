SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
INVARIANTS P06_Apart P06_Served
