CONSTANT RecFile = "recs.ndjson"
SPECIFICATION LSpec
INVARIANTS LOk LLeaf LEmpty LFlag LIssues LTracked
VIEW DView
CHECK_DEADLOCK FALSE
