CONSTANTS RecFile = "recs.ndjson"
          Size = 12
SPECIFICATION Spec
INVARIANTS Answered Complete Overlap Contain Ordered Spelled
VIEW View
CHECK_DEADLOCK FALSE
