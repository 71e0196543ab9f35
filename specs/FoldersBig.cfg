SPECIFICATION Spec
CONSTANTS Folders = {"o", "i"}
 Paths = {"oa", "ia"}
 In <- InMC
 Texts = {"x"}
 Workers = {1, 2}
 MaxEnv = 2
 MaxFold = 4
 Sweep = TRUE
 Told = FALSE
INVARIANT Converged
CHECK_DEADLOCK FALSE
