CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Progress Outcome Count Text Partition
VIEW View
CHECK_DEADLOCK FALSE
