SPECIFICATION Spec
VIEW View
INVARIANT Good
CHECK_DEADLOCK FALSE
