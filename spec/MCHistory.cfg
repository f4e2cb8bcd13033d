SPECIFICATION Spec
ACTION_CONSTRAINT EmitWord
CHECK_DEADLOCK FALSE
