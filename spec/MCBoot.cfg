SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitStart
INVARIANTS K01 K02 K03 K03_None Same
