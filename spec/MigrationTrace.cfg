SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS AllOrNothing Report
PROPERTIES Forward OneScript RefusedUntouched DryRunUntouched
