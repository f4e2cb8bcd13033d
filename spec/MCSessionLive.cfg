SPECIFICATION Fair
CHECK_DEADLOCK TRUE
INVARIANTS E01_NoErrors E01_Responses E01_Commands E01_Order
PROPERTIES E01_Completes
