SPECIFICATION Spec
CONSTANT Savable <- SavableMC
VIEW StateView
CHECK_DEADLOCK FALSE
INVARIANTS OneCopy KeyDenotesContent UsedCovers OnlySavable
PROPERTIES KeysAreForever OthersUntouched OneAtATime
