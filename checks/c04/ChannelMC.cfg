SPECIFICATION Spec
CONSTANTS Slots = 2 Max = 4
INVARIANTS ExactlyOnce Bounded Together
PROPERTIES RefusedUnchanged KeptUnchanged
CHECK_DEADLOCK FALSE
