CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
VIEW View
INVARIANTS Ends Status Shown
CHECK_DEADLOCK FALSE
