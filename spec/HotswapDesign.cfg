SPECIFICATION Spec
INVARIANT NoViolation RefsRight OneAtATime
VIEW View
CHECK_DEADLOCK TRUE
