CONSTANTS Threads = {1,2}
          Length = 3
          Kinds = {"tok", "cst", "ast", "abs", "set"}
          Shared = FALSE
          Lazy = FALSE
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS Own Emitted
CHECK_DEADLOCK FALSE
