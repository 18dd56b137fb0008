SPECIFICATION Spec
CONSTANTS MaxOwn = 0  MaxObj = 0  MaxHandles = 1  ForgetOnRefusal = FALSE  ForgetOnReturn = FALSE
CONSTRAINT Consumed
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
