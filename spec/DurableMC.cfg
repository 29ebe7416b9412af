SPECIFICATION Spec
CONSTANTS NP = 2 NT = 2 MaxW = 2 Pool = 2 Skip = "none"
INVARIANTS Survives Kept
CHECK_DEADLOCK FALSE
