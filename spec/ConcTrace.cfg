SPECIFICATION Spec
CONSTANT Savable <- TraceSavable
CHECK_DEADLOCK FALSE
INVARIANTS OneCopy UsedCovers Report
PROPERTIES OthersUntouched OneAtATime
