SPECIFICATION Spec
CONSTANTS MaxCreate = 3
 MaxApply = 2
 Wide = FALSE
INVARIANTS ArityOK NoPlaceholder KeywordsOK CallsOK Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
