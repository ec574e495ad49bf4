SPECIFICATION Fair
VIEW View
INVARIANTS Once Covered Inside LastWins Complete
PROPERTY Ends
CONSTANTS N = 5 C = 3 P = 3 Mode = "read" Depth = 0 MUT = ""
