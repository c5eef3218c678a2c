SPECIFICATION Spec
CONSTANTS Digs = {"AA", "bb"}
Lps = {"a", "b"}
MaxVer = 2
MaxFix = 1
MaxEdits = 5
HeadOnly = FALSE
INVARIANTS Sound Readable Used
PROPERTY Keeps
CHECK_DEADLOCK FALSE
