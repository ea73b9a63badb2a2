SPECIFICATION Spec
INVARIANTS TypeOK NextIsNext ChannelsTogether
PROPERTIES NeverBack StaysOn ProtocolNeverBack
CHECK_DEADLOCK FALSE
