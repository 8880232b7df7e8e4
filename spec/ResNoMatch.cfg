SPECIFICATION Spec
CONSTANTS Glue = TRUE Closer = TRUE Match = FALSE Budget = 12 Depth = 2 Redir = 3 MaxNs = 2 Lookups <- JustX Evil <- Most Expiring = 0
INVARIANTS OnlyTruthCached RightServerAsked OnlyTruthAnswered Victims Bounded Chained InZone

CHECK_DEADLOCK FALSE
