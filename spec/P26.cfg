CONSTANT RecFile = "recs.ndjson"
SPECIFICATION ESpec
INVARIANTS Offered Spaced Multiplied Respelled Settled
VIEW EView
CHECK_DEADLOCK FALSE
