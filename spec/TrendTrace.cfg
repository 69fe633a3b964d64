SPECIFICATION Spec
INVARIANT Promises
PROPERTY Advancing
CHECK_DEADLOCK FALSE
