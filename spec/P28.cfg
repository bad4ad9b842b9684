SPECIFICATION Spec
CONSTANT RecFile = "recs.ndjson"
INVARIANTS Answers Delivered Complete Emptiness
VIEW View
CHECK_DEADLOCK FALSE
