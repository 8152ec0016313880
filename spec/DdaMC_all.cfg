SPECIFICATION Spec
CONSTANTS N = 2 Vals = {0, 1, 2} Steps = 10
INVARIANTS ReadOnly Alias Filled Visible
PROPERTY InoutExact
CHECK_DEADLOCK FALSE
