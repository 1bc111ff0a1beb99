SPECIFICATION Spec
CONSTANT Types <- LogTypes
CONSTANT Idents <- LogIdents
CHECK_DEADLOCK FALSE
POSTCONDITION Report
