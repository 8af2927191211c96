SPECIFICATION EnumSpec
INVARIANTS ScopesNest NeverEmpty
CHECK_DEADLOCK FALSE
