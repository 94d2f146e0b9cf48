SPECIFICATION Spec
CONSTANTS MaxBlocks=2 MaxCopy=1 MaxBody=2
INVARIANTS OneDefinition OneObject DefinitionIsReference Scoped
PROPERTIES Grows
CHECK_DEADLOCK FALSE
