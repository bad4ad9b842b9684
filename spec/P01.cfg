CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Bounded Quiet Returned
VIEW View
CHECK_DEADLOCK FALSE
