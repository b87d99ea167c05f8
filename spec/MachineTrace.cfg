SPECIFICATION Spec
INVARIANTS StoreOK EnvOK
CHECK_DEADLOCK FALSE
