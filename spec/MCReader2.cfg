SPECIFICATION Spec
CONSTANT DocOf <- DocNo
CONSTANT MaxDev = 2
INVARIANT Inv
INVARIANT ContentInv
INVARIANT ErrorInv
INVARIANT BrokenInv
INVARIANT Terminates
CHECK_DEADLOCK FALSE
