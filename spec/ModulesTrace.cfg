SPECIFICATION Spec
INVARIANT StateOK
CHECK_DEADLOCK FALSE
