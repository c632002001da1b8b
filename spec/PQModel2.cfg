SPECIFICATION Spec
CONSTANTS
 Cap = 3
 Cost <- CostB
INVARIANTS Bounded OneCost NotAgain Known BestIsTrue
CHECK_DEADLOCK FALSE
