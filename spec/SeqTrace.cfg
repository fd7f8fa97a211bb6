CONSTANTS Procs = {0, 1, 2, 3, 4, 5}
SPECIFICATION TSpec
INVARIANTS Disjoint NotReclaimed Capacity PubClaimed
CONSTRAINT Mark
POSTCONDITION Report
CHECK_DEADLOCK FALSE
