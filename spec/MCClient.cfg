SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
INVARIANTS C01 C01_Rejected C02 C03 C04 C05 C06 C07 F01 F02 F03 F04
PROPERTIES F01_Wait
