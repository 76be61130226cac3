SPECIFICATION Spec
INVARIANTS TypeOK NeverPoisoned OneDescriptor NoPtrShared Progress
PROPERTIES Stable OnlyBuildsPanic Refines Terminates
CHECK_DEADLOCK FALSE
