SPECIFICATION Spec
CONSTANTS Parts = {"A", "N"}
 Steps = 2
INVARIANT Meant Allowed Sound
PROPERTY Fresh
CHECK_DEADLOCK FALSE
