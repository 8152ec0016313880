CONSTANTS Wide = FALSE
          Smp = {0, 1}
          MaxLen = 9
          MaxOps = 4
          Gen = TRUE
SPECIFICATION Spec
INVARIANTS Equal Emit
CHECK_DEADLOCK FALSE
