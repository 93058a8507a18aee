SPECIFICATION Spec
CONSTANTS Mode = "good" Store = "cas" N = 2
INVARIANTS OnceAndLast NothingMeansYes Depends FreshRow Increasing
PROPERTY Ends
CHECK_DEADLOCK FALSE
