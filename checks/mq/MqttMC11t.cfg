CONSTANTS MaxConn = 3 MaxPub = 2 Qoses = {0} WithWill = TRUE Rmax = 1 Cleans = {FALSE, TRUE} Rets = {FALSE, TRUE} Secret = TRUE Losers = {"x"} Timers = FALSE
INVARIANTS DistinctIds WithinLimit ExactlyOnce AtLeastOnce NoDupDequeue OneConnection UpHasSession OneRetained WillOnce NoSecrets
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
