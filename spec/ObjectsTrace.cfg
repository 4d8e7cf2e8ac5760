SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Report
PROPERTY Independent
