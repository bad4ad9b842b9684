CONSTANTS Threads = {1, 2, 3}
          Length = 3
          Kinds = {"cst", "ast", "abs"}
          Shared = FALSE
          Lazy = FALSE
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS Own Emitted
CHECK_DEADLOCK FALSE
