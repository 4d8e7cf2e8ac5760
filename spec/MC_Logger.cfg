SPECIFICATION Spec
INVARIANTS Truthful Corruption Contained Projected StrictPolicy HeaderOnly RoundTrip WrittenCanonical Export
CHECK_DEADLOCK FALSE
