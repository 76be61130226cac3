SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
 Threads <- TrThreads
 Types <- TrTypes
 Ptrs <- TrPtrs
 None = None
