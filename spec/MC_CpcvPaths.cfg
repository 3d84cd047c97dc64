SPECIFICATION Spec
VIEW View
CONSTANTS GK <- GKs
INVARIANTS NoLeak FoldsAreFair PathsDisjoint PathsComplete AllUsed Counted
CHECK_DEADLOCK FALSE
