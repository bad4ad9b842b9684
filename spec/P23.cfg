CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Walked Visits Result
VIEW View
CHECK_DEADLOCK FALSE
