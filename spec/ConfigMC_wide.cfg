SPECIFICATION Spec
CONSTANTS MaxSets = 4 MaxHeight = 5
INVARIANTS EnvWins CliWins UntouchedDefault HiddenBad Fair LatestCovers
PROPERTY Isolation
CHECK_DEADLOCK FALSE
