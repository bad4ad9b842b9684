CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Parsed TreeEq
VIEW View
CHECK_DEADLOCK FALSE
