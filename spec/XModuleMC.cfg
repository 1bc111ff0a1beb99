SPECIFICATION Spec
CONSTANTS
 Types <- MCTypes
 Idents <- MCIdents
CHECK_DEADLOCK FALSE
INVARIANTS Tree Scopes Resolution Enumeration
