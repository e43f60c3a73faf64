SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT TypeOf <- TypeAt
