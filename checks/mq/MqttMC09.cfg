CONSTANTS MaxConn = 4 MaxPub = 1 Qoses = {1} WithWill = FALSE Rmax = 1 Cleans = {FALSE, TRUE} Rets = {FALSE} Secret = FALSE Losers = {"x", "y"} Timers = TRUE
INVARIANTS DistinctIds WithinLimit ExactlyOnce AtLeastOnce NoDupDequeue OneConnection UpHasSession OneRetained WillOnce NoSecrets
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
