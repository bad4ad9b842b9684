CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Parsed Shape
VIEW View
CHECK_DEADLOCK FALSE
