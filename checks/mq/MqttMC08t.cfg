CONSTANTS MaxConn = 4 MaxPub = 2 Qoses = {1, 2} WithWill = FALSE Rmax = 2 Cleans = {FALSE} Rets = {FALSE} Secret = FALSE Losers = {"x", "y"} Timers = FALSE
INVARIANTS DistinctIds WithinLimit ExactlyOnce AtLeastOnce NoDupDequeue OneConnection UpHasSession OneRetained WillOnce NoSecrets
CHECK_DEADLOCK FALSE
SPECIFICATION Spec
