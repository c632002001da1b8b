SPECIFICATION Spec
CONSTANTS
 Cap = 9
 Workers = {w1, w2}
 Graph <- G1
INVARIANTS Once Bounded Accounted Cheapest1 NeverWorse Quiet
PROPERTY Stops
CHECK_DEADLOCK FALSE
