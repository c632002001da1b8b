SPECIFICATION Spec
CONSTANTS
 Cap = 2
 Cost <- CostA
INVARIANTS Bounded OneCost NotAgain Known BestIsTrue
CHECK_DEADLOCK FALSE
