SPECIFICATION Spec
INVARIANTS Report DifferLaw
CHECK_DEADLOCK FALSE
