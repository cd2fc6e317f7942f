SPECIFICATION TraceSpec
INVARIANTS Progress Deep
CHECK_DEADLOCK FALSE
VIEW Seen
