SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Accepted Faithful Once
PROPERTY Appends
CONSTANTS
 LPaths <- P2
 Conts = {"B1", "B2"}
 MaxVer = 2
 MaxAdds = 0
 Algs = {"sha512"}
 Specs = {"1.1"}
 Cds = {"content"}
 Ops = {"create", "update", "extract"}
 Metas <- OneMeta
 Fwds = {TRUE, FALSE}
 Dedupes = {TRUE, FALSE}
