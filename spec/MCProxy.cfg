SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
INVARIANTS P01_Order P01_Complete P02_Order P02_Complete P02_Greeting P03_Supported P04_Refused P05_Agree P07_Ends
