SPECIFICATION Spec
CONSTANT TypeOf <- PrimAt
CONSTANT MaxLen = 5
CONSTANT Mode = "num"
INVARIANT CollapseInv
INVARIANT ReplaceInv
INVARIANT TrimInv
INVARIANT IntInv
INVARIANT BoolInv
INVARIANT PowInv
INVARIANT Emit
CHECK_DEADLOCK FALSE
