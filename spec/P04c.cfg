CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Parsed Spans
VIEW View
CHECK_DEADLOCK FALSE
