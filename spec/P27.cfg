SPECIFICATION Spec
CONSTANT RecFile = "recs.ndjson"
INVARIANTS Answers Delivered Complete Private
VIEW View
CHECK_DEADLOCK FALSE
