SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK TRUE
ACTION_CONSTRAINT EmitTransition
INVARIANTS E01_NoErrors E01_Responses E01_Commands E01_Order
