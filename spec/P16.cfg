CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS AbsRun Located Placed
VIEW View
CHECK_DEADLOCK FALSE
