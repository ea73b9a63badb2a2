SPECIFICATION Spec
CONSTANTS Txt = {"n", "p"} MaxEntries = 1
INVARIANTS NoStranger Replaced Apart KeptGuarded NoLockout
CHECK_DEADLOCK FALSE
