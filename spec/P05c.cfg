CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Parsed Flagged
VIEW View
CHECK_DEADLOCK FALSE
