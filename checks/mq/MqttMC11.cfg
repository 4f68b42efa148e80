CONSTANTS MaxConn = 3 MaxPub = 2 Qoses = {0} WithWill = FALSE Rmax = 1 Cleans = {FALSE} Rets = {FALSE, TRUE} Secret = TRUE Losers = {"x", "y"} Timers = FALSE
INVARIANTS DistinctIds WithinLimit ExactlyOnce AtLeastOnce NoDupDequeue OneConnection UpHasSession OneRetained WillOnce NoSecrets
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
