SPECIFICATION Spec
CONSTANTS CopyMode = "deep" MaxBuilders = 5 MaxMutations = 2 MaxResults = 2
INVARIANTS ResultsFaithful BuildersFaithful Complete
CHECK_DEADLOCK FALSE
