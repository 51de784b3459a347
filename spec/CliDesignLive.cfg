SPECIFICATION Spec
INVARIANT NoViolation
VIEW View
PROPERTY Ends
CHECK_DEADLOCK TRUE
