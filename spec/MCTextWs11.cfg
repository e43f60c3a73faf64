SPECIFICATION Spec
CONSTANT TypeOf <- PrimAt
CONSTANT MaxLen = 11
CONSTANT Mode = "ws"
INVARIANT CollapseInv
INVARIANT ReplaceInv
INVARIANT TrimInv
INVARIANT IntInv
INVARIANT BoolInv
INVARIANT PowInv
INVARIANT Emit
CHECK_DEADLOCK FALSE
