CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Progress Outcome Count Kind Text Span
VIEW View
CHECK_DEADLOCK FALSE
