SPECIFICATION Spec
CONSTANTS
 Cap = 9
 Workers = {w1, w2, w3}
 Graph <- G2
INVARIANTS Once Bounded Accounted Cheapest1 NeverWorse Quiet
PROPERTY Stops
CHECK_DEADLOCK FALSE
