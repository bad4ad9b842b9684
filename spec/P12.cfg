CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Nested Quiet Parsed Layout
VIEW View
CHECK_DEADLOCK FALSE
