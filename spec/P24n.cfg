CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Converted Converts
CHECK_DEADLOCK FALSE
