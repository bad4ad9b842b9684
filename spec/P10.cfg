CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Nested Quiet Parsed Shape
VIEW View
CHECK_DEADLOCK FALSE
