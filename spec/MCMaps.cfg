SPECIFICATION Spec
INVARIANTS RefAccepted TurnedRejected Order Ends FramesInOrder EvenLevels
CHECK_DEADLOCK FALSE
