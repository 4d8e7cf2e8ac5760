SPECIFICATION Spec
VIEW StateView
CHECK_DEADLOCK FALSE
INVARIANTS FullHasAll OnlyKnown
PROPERTY Keeps
