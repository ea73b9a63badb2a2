SPECIFICATION Spec
CONSTANTS Txt = {"n", "p"} MaxEntries = 2
INVARIANTS NoStranger Replaced Apart KeptGuarded NoLockout
CHECK_DEADLOCK FALSE
