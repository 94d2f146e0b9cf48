SPECIFICATION Spec
CONSTANTS Alphabet = {97, 10, 13, 128512}
 MaxLen = 3
 MaxIns = 1
 Depth = 1
INVARIANTS LinesOk Monotone Clamped Frame
CHECK_DEADLOCK FALSE
