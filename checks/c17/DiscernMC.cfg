SPECIFICATION Spec
CONSTANTS MaxLen = 7
 LIMIT = 5
INVARIANTS Sound Balanced LastWins Agree
CHECK_DEADLOCK FALSE
