SPECIFICATION Spec
CONSTANTS Actors = {1, 2, 3}  Timeouts = {0, 1, 3}  MaxNow = 7  Poll = 2
INVARIANTS Mutex HolderIs NotEarly Soon HandedOver
CHECK_DEADLOCK FALSE
