SPECIFICATION Spec
CONSTANT Types <- MCTypes
CHECK_DEADLOCK FALSE
INVARIANTS Soundness Lookup
