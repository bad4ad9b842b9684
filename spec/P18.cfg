CONSTANT RecFile = "recs.ndjson"
SPECIFICATION DSpec
INVARIANTS Parsed Once Warnings Fatals
VIEW DView
CHECK_DEADLOCK FALSE
