SPECIFICATION Spec
CONSTANTS MaxOwn = 3  MaxObj = 4  MaxHandles = 3  ForgetOnRefusal = TRUE  ForgetOnReturn = FALSE
INVARIANTS Accounted AllGivenBack
CHECK_DEADLOCK FALSE
