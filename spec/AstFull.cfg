CONSTANT RecFile = "recs.ndjson"
SPECIFICATION Spec
INVARIANTS AggRun AggEq NoTrivia AbsRun Exact Placed
VIEW View
CHECK_DEADLOCK FALSE
