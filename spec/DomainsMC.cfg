CONSTANTS MaxFirst = 3
          MaxStride = 3
          MaxLen = 3
          MaxExt = 3
          Gen = FALSE
SPECIFICATION Spec
INVARIANTS RegsValid EqualIsSetEqual IntersectIsCommon ImageIsApply TravOnce TravInOrder TravComplete AdvanceEnabled
CHECK_DEADLOCK FALSE
