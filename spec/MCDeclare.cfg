SPECIFICATION Spec
INVARIANT Agree
INVARIANT Again
INVARIANT OrderFree
PROPERTY FaultsStay
CHECK_DEADLOCK FALSE
