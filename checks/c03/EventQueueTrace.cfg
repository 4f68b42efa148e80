SPECIFICATION Spec
CONSTANTS Fn = {0, 1, 2, 3} Threads = {0, 1, 2, 3} MaxAmount = 65535
CHECK_DEADLOCK FALSE
