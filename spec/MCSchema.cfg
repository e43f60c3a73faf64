SPECIFICATION Spec
INVARIANT Inv
INVARIANT DenotationInv
INVARIANT PrefixInv
INVARIANT TextInv
INVARIANT NoiseInv
INVARIANT RoundTripInv
CHECK_DEADLOCK FALSE
CONSTANT TypeOf <- TypeAt
