SPECIFICATION Spec
INVARIANT NeverWorse
CHECK_DEADLOCK FALSE
