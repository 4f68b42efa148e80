SPECIFICATION Spec
CONSTANTS Slots = 1024
CHECK_DEADLOCK FALSE
