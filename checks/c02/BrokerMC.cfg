SPECIFICATION MCSpec
CONSTANTS NMsg = 2
Threads <- MCThreads
INVARIANTS InOrder Once OneOfCompeting Addressed Backstop OneInSlot
PROPERTY Delivered
CHECK_DEADLOCK FALSE
