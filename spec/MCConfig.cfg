SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitDoc
INVARIANTS K01 K02 K03 K03_Whole
