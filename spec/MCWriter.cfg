SPECIFICATION Spec
CONSTANT UrlOrder <- Urls
INVARIANT SuccessInv
INVARIANT OrderInv
INVARIANT Says
INVARIANT PrefixesInv
PROPERTY Forever
CHECK_DEADLOCK FALSE
