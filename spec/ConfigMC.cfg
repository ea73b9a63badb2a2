SPECIFICATION Spec
CONSTANTS MaxSets = 3 MaxHeight = 3
INVARIANTS EnvWins CliWins UntouchedDefault HiddenBad Fair LatestCovers
PROPERTY Isolation
CHECK_DEADLOCK FALSE
