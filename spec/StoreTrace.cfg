SPECIFICATION Spec
CONSTANT Savable <- TraceSavable
CHECK_DEADLOCK FALSE
INVARIANTS OneCopy KeyDenotesContent UsedCovers OnlySavable Report
PROPERTIES KeysAreForever OthersUntouched OneAtATime
