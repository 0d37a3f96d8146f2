SPECIFICATION Spec
CONSTANT Step = 97
INVARIANTS Correct InGrid
PROPERTY Stops
CHECK_DEADLOCK FALSE
