CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS Quiet Nested InOrder Bounded Parsed LeafTexts Shape Layout TreeEq Ordered Spans Flagged
VIEW View
CHECK_DEADLOCK FALSE
