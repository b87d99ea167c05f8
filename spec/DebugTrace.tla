--------------------------- MODULE DebugTrace ---------------------------
EXTENDS Debug, Json, IOUtils
VARIABLES j, i, s
Jobs == JsonDeserialize(IOEnv.MACHINE_FILE).jobs     \* here, not in OpsTrace: TLC evaluates constants of the root module once
T == INSTANCE OpsTrace
Spec == T!OpsSpec
StateOK == T!OpsInv
=============================================================================
