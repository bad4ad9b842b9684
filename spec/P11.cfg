CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Parsed Layout Inserted
VIEW View
CHECK_DEADLOCK FALSE
