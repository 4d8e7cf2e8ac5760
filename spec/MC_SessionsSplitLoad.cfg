SPECIFICATION Spec
CONSTANTS
 Sessions <- MCSessions
 Contents = {1, 2}
 Parts = 2
 MaxOps <- MCMaxOps
 LoadInOne = FALSE
 SaveInOne = TRUE
INVARIANTS LoadsComplete StoredComplete OneCopy OneWriter
PROPERTIES KeysGrow Whole
CHECK_DEADLOCK FALSE
