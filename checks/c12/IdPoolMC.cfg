SPECIFICATION Spec
CONSTANT N = 9
INVARIANTS Same Maximal RefusedIffFull GetIffFree ReleaseIffUsed
CHECK_DEADLOCK FALSE
