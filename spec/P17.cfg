CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Replayed Same NoPanic
VIEW View
CHECK_DEADLOCK FALSE
