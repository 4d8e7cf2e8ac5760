SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS FullHasAll OnlyKnown Report
PROPERTY Keeps
