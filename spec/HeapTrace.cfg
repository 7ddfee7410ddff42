SPECIFICATION HSpec
INVARIANT HInvariant
POSTCONDITION Done
CHECK_DEADLOCK FALSE
