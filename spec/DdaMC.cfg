SPECIFICATION Spec
CONSTANTS N = 2 Vals = {0, 1} Steps = 8
INVARIANTS ReadOnly Alias Filled Visible
PROPERTY InoutExact
CHECK_DEADLOCK FALSE
