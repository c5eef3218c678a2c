SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS SafePaths Recoverable FewRefused Bounded
CHECK_DEADLOCK FALSE
