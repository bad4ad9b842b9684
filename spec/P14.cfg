CONSTANT RecFile = "recs.ndjson"
SPECIFICATION AggSpec
INVARIANTS AggRun AggEq NoTrivia
VIEW View
CHECK_DEADLOCK FALSE
