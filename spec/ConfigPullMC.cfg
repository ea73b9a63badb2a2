CONSTANTS Nodes = {1, 2, 3}
Versions = 2
SPECIFICATION Spec
INVARIANTS Bound Untouched SlotsDistinct SlotsBounded
PROPERTY Forward
CHECK_DEADLOCK FALSE
