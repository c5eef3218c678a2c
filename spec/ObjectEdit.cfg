SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Accepted Faithful
PROPERTY Appends
CONSTANTS
 LPaths <- P3
 Conts = {"B1", "B2"}
 MaxVer = 2
 MaxAdds = 2
 Algs = {"sha512"}
 Specs = {"1.1"}
 Cds = {"content"}
 Ops = {"create", "start"}
 Metas <- OneMeta
 Fwds = {TRUE}
 Dedupes = {TRUE, FALSE}
