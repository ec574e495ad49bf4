SPECIFICATION Spec
INVARIANTS Accepted Rejected
CONSTANTS
MaxX = 3
MaxC = 2
N = 2
