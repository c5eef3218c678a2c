SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Accepted Located Apart OnePerId Sound
PROPERTY Keeps
CONSTANTS
 Ids = {"a", "ab", "abab", "abcd", "a/b", "a:b"}
 Asked = {"..", "0=x", "extensions"}
 Kinds = {"g10", "g11", "bad", "undecl"}
 Layouts = {"", "0002", "nnnn-tuple-tree", "0003", "nnnn-flat-quoted-storage-layout", "nnnn-uuid-quadtree", "nope"}
 Specs = {"1.0", "", "2.0"}
 Damages = {"stray-ab", "stray-x", "stray-ext", "stray-root", "empty", "empty-ab", "nodecl", "nolayout", "unknown-layout"}
 Harms = {"bad", "undecl", "remove"}
 MaxObj = 3
