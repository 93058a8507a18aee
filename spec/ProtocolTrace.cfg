SPECIFICATION Spec
INVARIANTS Judged Guarantees
CHECK_DEADLOCK FALSE
