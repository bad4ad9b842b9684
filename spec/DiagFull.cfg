CONSTANT RecFile = "recs.ndjson"
SPECIFICATION DSpec
INVARIANTS Once Warnings Fatals Tracked
VIEW DView
CHECK_DEADLOCK FALSE
