CONSTANTS MaxConn = 4 MaxPub = 2 Qoses = {0} WithWill = TRUE Rmax = 1 Cleans = {FALSE} Rets = {FALSE, TRUE} Secret = FALSE Losers = {"x", "y"} Timers = TRUE
INVARIANTS DistinctIds WithinLimit ExactlyOnce AtLeastOnce NoDupDequeue OneConnection UpHasSession OneRetained WillOnce NoSecrets
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
