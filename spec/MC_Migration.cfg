SPECIFICATION Spec
VIEW StateView
CHECK_DEADLOCK FALSE
INVARIANTS VersionMatchesSchema AllOrNothing RerunCompletes
PROPERTIES Forward OneScript RefusedUntouched DryRunUntouched
