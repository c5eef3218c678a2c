SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Accepted Faithful Once
PROPERTY Appends
CONSTANTS
 LPaths <- P2
 Conts = {"B1", "B2"}
 MaxVer = 2
 MaxAdds = 0
 Algs = {"sha512", "sha256"}
 Specs = {"1.0", "1.1"}
 Cds = {"content", "data"}
 Ops = {"create", "update"}
 Metas <- OneMeta
 Fwds = {TRUE}
 Dedupes = {TRUE}
