SPECIFICATION Spec
INVARIANT NoViolation
VIEW View
CHECK_DEADLOCK TRUE
