SPECIFICATION Spec
CONSTANTS
 Writers = {1, 2}
 Readers = {3}
 NPer = 3
 MaxReads = 2
 Delayed = {2}
 Excl = TRUE
 Stops = TRUE
 Flags <- FlagsAll
 WriteFlags <- WFlagsAll
INVARIANTS NoDup OnceRead Ordered
CHECK_DEADLOCK FALSE
