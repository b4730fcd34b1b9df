SPECIFICATION Spec
INVARIANTS EncodeRight Minimal DecodeRight AccRight Consumed EofRight
CHECK_DEADLOCK FALSE
