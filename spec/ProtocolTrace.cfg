SPECIFICATION Spec
INVARIANTS NoPanic ForbiddenIsRefused PermittedIsAccepted
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
