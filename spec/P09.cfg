CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Parsed Layout
VIEW View
CHECK_DEADLOCK FALSE
