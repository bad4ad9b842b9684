CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Prints Printed
VIEW View
CHECK_DEADLOCK FALSE
