CONSTANT RecFile = "recs.ndjson"
SPECIFICATION DSpec
INVARIANTS Parsed Fatals
VIEW DView
CHECK_DEADLOCK FALSE
