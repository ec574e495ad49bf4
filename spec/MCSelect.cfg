SPECIFICATION Spec
CONSTANTS MaxN = 4 Show = 1
INVARIANTS InRange Ordered Compose Twice
