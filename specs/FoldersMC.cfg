SPECIFICATION Spec
CONSTANTS Folders = {"o", "i"}
 Paths = {"oa", "ia"}
 In <- InMC
 Texts = {"x", "y"}
 Workers = {1, 2}
 MaxEnv = 1
 MaxFold = 3
 Sweep = TRUE
 Told = FALSE
INVARIANT Converged
CHECK_DEADLOCK FALSE
