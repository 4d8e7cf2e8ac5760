SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Intact
INVARIANT Nothing
INVARIANT Determined
INVARIANT Idempotent
INVARIANT Independent
INVARIANT Repeated
