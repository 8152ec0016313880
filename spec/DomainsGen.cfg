CONSTANTS MaxFirst = 5
          MaxStride = 3
          MaxLen = 4
          MaxExt = 3
          Gen = TRUE
SPECIFICATION Spec
INVARIANT RegsValid
CHECK_DEADLOCK FALSE
