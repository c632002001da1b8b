SPECIFICATION Spec
INVARIANT OneToOne
INVARIANT Sound
CHECK_DEADLOCK FALSE
