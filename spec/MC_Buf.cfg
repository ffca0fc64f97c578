SPECIFICATION Spec
VIEW View
INVARIANT LawHolds
CHECK_DEADLOCK FALSE
