SPECIFICATION Spec
CONSTANTS Digs = {"AA", "bb"}
Lps = {"a", "b"}
MaxVer = 3
MaxFix = 1
MaxEdits = 7
HeadOnly = TRUE
INVARIANTS Sound Readable Used
PROPERTY Keeps
CHECK_DEADLOCK FALSE
