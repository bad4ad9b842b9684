CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Outcome Count Span
VIEW View
CHECK_DEADLOCK FALSE
