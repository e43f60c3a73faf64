SPECIFICATION Spec
CONSTANT DocOf <- DocNo
INVARIANT Inv
CHECK_DEADLOCK FALSE
