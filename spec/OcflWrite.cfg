SPECIFICATION WSpec
CHECK_DEADLOCK FALSE
VIEW WView
INVARIANT Harmless
CONSTANTS
 Careful = TRUE
 LPaths <- P2
 Conts = {"B1", "B2"}
 MaxVer = 2
 MaxAdds = 0
 Algs = {"sha512", "sha256"}
 Specs = {"1.1"}
 Cds = {"content"}
 Ops = {"create", "update"}
 Metas <- OneMeta
 Fwds = {TRUE}
 Dedupes = {TRUE}
