SPECIFICATION Spec
CONSTANTS Top = 3 Cap = 1 Rounds = 1 Bad = "none"
INVARIANTS TypeOK NoGap Bounded Agree Backed OneProposal
PROPERTIES Forward
CHECK_DEADLOCK FALSE
