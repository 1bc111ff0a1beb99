SPECIFICATION Spec
CONSTANT Types <- LogTypes
CHECK_DEADLOCK FALSE
POSTCONDITION Report
