SPECIFICATION Spec
INVARIANT Pointwise
PROPERTY Ends
CONSTANTS
MaxN = 3
MaxM = 3
MaxCells = 6
V = 3
MUT = "none"
Emit = TRUE
Rand = FALSE
