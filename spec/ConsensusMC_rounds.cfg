SPECIFICATION Spec
CONSTANTS Top = 1 Cap = 1 Rounds = 2 Bad = "none"
INVARIANTS TypeOK NoGap Bounded Agree Backed OneProposal
PROPERTIES Forward
CHECK_DEADLOCK FALSE
