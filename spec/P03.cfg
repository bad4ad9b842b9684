CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Nested Quiet InOrder Parsed LeafTexts Ordered
VIEW View
CHECK_DEADLOCK FALSE
