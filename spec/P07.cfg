CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Progress Outcome Count Kind Text
VIEW View
CHECK_DEADLOCK FALSE
