SPECIFICATION Spec
CONSTANTS MaxBlocks=3 MaxCopy=2 MaxBody=1
INVARIANTS OneDefinition OneObject DefinitionIsReference Scoped
PROPERTIES Grows
CHECK_DEADLOCK FALSE
