SPECIFICATION Spec
CHECK_DEADLOCK FALSE
PROPERTIES P06_Served P06_Accepted
