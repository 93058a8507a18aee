SPECIFICATION GenSpec
CONSTANTS Mode = "good" Store = "plain" N = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
