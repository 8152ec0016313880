CONSTANTS MaxLen = 7
          Gen = FALSE
SPECIFICATION Spec
INVARIANTS LayoutInjective ValShape ReleasedUnknown GuardsKept
PROPERTY UpdateVisible
CHECK_DEADLOCK FALSE
