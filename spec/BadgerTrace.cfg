SPECIFICATION Spec
INVARIANT NoTwice
CHECK_DEADLOCK FALSE
