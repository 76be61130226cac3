INIT Init
NEXT Next
INVARIANTS TypeOK NeverPoisoned OneDescriptor NoPtrShared PrintSched
CHECK_DEADLOCK FALSE
