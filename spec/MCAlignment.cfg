SPECIFICATION Spec
CONSTANTS Inputs <- In2  Outputs <- Out2  MaxIdle = 0
INVARIANTS CursorIsRule Disjoint OwnOutput Covered Separators InOrder
CHECK_DEADLOCK FALSE
