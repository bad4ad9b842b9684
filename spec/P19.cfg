CONSTANT RecFile = "recs.ndjson"
SPECIFICATION DSpec
INVARIANTS Parsed Tracked
VIEW DView
CHECK_DEADLOCK FALSE
