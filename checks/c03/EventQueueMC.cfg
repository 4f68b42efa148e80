SPECIFICATION Spec
CONSTANTS Fn = {0, 1} Threads = {1, 2} MaxAmount = 2 Passes = 3
INVARIANTS Nothing Total AllDelivered
PROPERTIES PausedNotCalled
CHECK_DEADLOCK FALSE
