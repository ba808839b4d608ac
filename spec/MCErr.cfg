SPECIFICATION Spec
VIEW View
INVARIANTS Counted Alive
PROPERTIES Private Reported
CHECK_DEADLOCK FALSE
