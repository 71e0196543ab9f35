SPECIFICATION Spec
CONSTANTS Parts = {"A", "N"}
 Steps = 3
INVARIANT Meant Allowed Sound
PROPERTY Fresh
CHECK_DEADLOCK FALSE
