SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS AnyOrder Again NoPunct NoInterj NoFull NoTrad Nothing Brackets
CHECK_DEADLOCK FALSE
