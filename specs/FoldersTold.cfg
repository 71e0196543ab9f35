SPECIFICATION Spec
CONSTANTS Folders = {"o", "i"}
 Paths = {"oa", "ia"}
 In <- InMC
 Texts = {"x", "y"}
 Workers = {1, 2}
 MaxEnv = 1
 MaxFold = 3
 Sweep = TRUE
 Told = TRUE
INVARIANT Converged
CHECK_DEADLOCK FALSE
