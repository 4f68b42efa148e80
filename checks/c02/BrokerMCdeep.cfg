SPECIFICATION MCSpec
CONSTANTS NMsg = 3
Threads <- MCThreads
INVARIANTS InOrder Once OneOfCompeting Addressed Backstop OneInSlot
CHECK_DEADLOCK FALSE
