CONSTANTS Threads = {1,2}
          Length = 2
          Kinds = {"tok", "cst", "ast", "abs", "set"}
          Shared = TRUE
          Lazy = FALSE
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS Own Emitted
CHECK_DEADLOCK FALSE
