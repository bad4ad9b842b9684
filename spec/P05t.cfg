CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Progress Outcome Count Kind Text Safe
VIEW View
CHECK_DEADLOCK FALSE
