CONSTANTS Threads = {1}
          Length = 2
          Kinds = {"tok", "cst", "ast", "abs", "set"}
          Shared = FALSE
          Lazy = TRUE
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS Own Emitted
CHECK_DEADLOCK FALSE
