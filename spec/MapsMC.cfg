CONSTANTS MaxExt = 14
          MaxSub = 6
          MaxC = 5
SPECIFICATION Spec
INVARIANTS ClosedForms Sizes Partition Balanced
PROPERTY Finishes
CHECK_DEADLOCK FALSE
