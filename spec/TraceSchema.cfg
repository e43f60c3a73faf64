SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANT TypeOf <- TypeAt
