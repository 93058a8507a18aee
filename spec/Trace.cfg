SPECIFICATION Spec
INVARIANT Judged
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
