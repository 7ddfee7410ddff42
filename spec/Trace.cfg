SPECIFICATION TSpec
INVARIANT TInvariant
POSTCONDITION Done
CHECK_DEADLOCK FALSE
