SPECIFICATION Spec
CONSTANTS MaxCreate = 2
 MaxApply = 3
 Wide = FALSE
INVARIANTS ArityOK NoPlaceholder KeywordsOK CallsOK Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
