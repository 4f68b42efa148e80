SPECIFICATION Spec
CONSTANTS N = 3 MaxT = 13 TTL = 2 TIMEOUT = 1 Slack = 0
INVARIANT TypeOK
PROPERTIES OnlyForAReason NothingOld Ordered Finished
CHECK_DEADLOCK FALSE
