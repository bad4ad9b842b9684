CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS AbsRun Meaning
VIEW View
CHECK_DEADLOCK FALSE
