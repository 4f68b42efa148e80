CONSTANTS MaxConn = 5 MaxPub = 1 Qoses = {2} WithWill = FALSE Rmax = 1 Cleans = {FALSE, TRUE} Rets = {FALSE} Secret = FALSE Losers = {"x", "y"} Timers = TRUE
INVARIANTS DistinctIds WithinLimit ExactlyOnce AtLeastOnce NoDupDequeue OneConnection UpHasSession OneRetained WillOnce NoSecrets
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
