SPECIFICATION Spec
INVARIANTS Report TimeLaw
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
