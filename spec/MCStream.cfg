SPECIFICATION Spec
INVARIANTS Agree Whole Bounded Again Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
