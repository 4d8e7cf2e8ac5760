SPECIFICATION Spec
INVARIANT Report
PROPERTY BadStays
CHECK_DEADLOCK FALSE
