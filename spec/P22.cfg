CONSTANT RecFile = "recs.ndjson"
SPECIFICATION CSpec
INVARIANTS IterTokens IterChars IterSource WholeText
VIEW View
CHECK_DEADLOCK FALSE
