SPECIFICATION Spec
CONSTANT Types <- MCTypes
CHECK_DEADLOCK FALSE
INVARIANTS Equality Conversion Traversing
