SPECIFICATION Spec
CONSTANTS MaxSeg = 128 Pad = 32
CHECK_DEADLOCK FALSE
