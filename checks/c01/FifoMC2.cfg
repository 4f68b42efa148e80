SPECIFICATION Spec
CONSTANTS
 Writers = {1, 2}
 Readers = {3, 4}
 NPer = 2
 MaxReads = 2
 Delayed = {2}
 Excl = TRUE
 Stops = TRUE
 Flags <- FlagsAll
 WriteFlags <- WFlagsAll
INVARIANTS NoDup OnceRead
CHECK_DEADLOCK FALSE
