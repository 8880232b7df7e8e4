SPECIFICATION Spec
CONSTANTS Glue = TRUE Closer = TRUE Match = TRUE Budget = 12 Depth = 2 Redir = 3 MaxNs = 2 Lookups <- XW Evil <- Few Expiring = 1
INVARIANTS OnlyTruthCached RightServerAsked OnlyTruthAnswered Victims Bounded Chained InZone

CHECK_DEADLOCK FALSE
