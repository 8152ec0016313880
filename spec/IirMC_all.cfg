CONSTANTS Wide = TRUE
          Smp = {0, 1}
          MaxLen = 4
          MaxOps = 3
          Gen = FALSE
SPECIFICATION Spec
INVARIANTS Equal
CHECK_DEADLOCK FALSE
