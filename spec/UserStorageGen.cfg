CONSTANTS MaxLen = 5
          Gen = TRUE
SPECIFICATION Spec
INVARIANTS Emit
VIEW HistView
CHECK_DEADLOCK FALSE
