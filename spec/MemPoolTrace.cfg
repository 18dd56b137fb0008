SPECIFICATION Spec
CONSTRAINT Consumed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
