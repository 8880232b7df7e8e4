SPECIFICATION Fair
CONSTANTS Glue = TRUE Closer = TRUE Match = TRUE Budget = 12 Depth = 2 Redir = 3 MaxNs = 2 Lookups <- JustX Evil <- Busy Expiring = 0
INVARIANTS OnlyTruthCached RightServerAsked OnlyTruthAnswered Victims Bounded Chained InZone
PROPERTIES Ends
CHECK_DEADLOCK FALSE
