SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS SafePaths Recoverable FewRefused Bounded
CHECK_DEADLOCK FALSE
