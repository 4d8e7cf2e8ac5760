SPECIFICATION Spec
INVARIANTS Laws Export
CHECK_DEADLOCK FALSE
