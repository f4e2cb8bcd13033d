SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
INVARIANTS T06 T01_Input T01_Output T03 T03_Ends T04 T04_Reason
