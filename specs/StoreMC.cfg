SPECIFICATION Spec
CONSTANTS Paths = {"a", "b"}
 Texts = {"x", "y"}
 Workers = {1, 2}
 MaxEnv = 2
 MaxCrash = 1
INVARIANTS Converged HashTruthful NothingForgotten OneWriter
CHECK_DEADLOCK FALSE
