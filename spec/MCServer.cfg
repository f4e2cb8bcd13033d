SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
INVARIANTS S01 S02 S02_Refused S03 S04 S05 S06 F01 F02 F03 F04
PROPERTIES S0405_Refused F01_Wait
