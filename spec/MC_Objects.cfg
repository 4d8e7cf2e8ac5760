SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW StateView
INVARIANT TypeOK
PROPERTY Independent
