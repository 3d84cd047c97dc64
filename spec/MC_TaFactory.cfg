SPECIFICATION Spec
CONSTANTS MaxCreate = 1
 MaxApply = 1
 Wide = TRUE
INVARIANTS ArityOK NoPlaceholder KeywordsOK CallsOK Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
