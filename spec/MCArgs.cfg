SPECIFICATION Spec
INVARIANTS Answered Emit
