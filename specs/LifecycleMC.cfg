SPECIFICATION LSpec
INVARIANT Once
PROPERTY NoWayBack
CHECK_DEADLOCK FALSE
