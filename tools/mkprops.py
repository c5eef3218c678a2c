"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

OBJ = "ocfl/object.py"; NV = "ocfl/new_version.py"; INV = "ocfl/inventory.py"; IV = "ocfl/inventory_validator.py"
VAL = "ocfl/validator.py"; SR = "ocfl/storage_root.py"; FSW = "ocfl/fsw.py"; NAM = "ocfl/namaste.py"; DIG = "ocfl/digest.py"
LAY = "ocfl/layout.py"; OU = "ocfl/object_utils.py"; VM = "ocfl/version_metadata.py"; W3C = "ocfl/w3c_datetime.py"
LAYS = ["ocfl/layout_0002_flat_direct.py", "ocfl/layout_0003_hash_and_id_n_tuple.py", "ocfl/layout_nnnn_flat_quoted.py", "ocfl/layout_nnnn_tuple_tree.py", "ocfl/layout_nnnn_uuid_quadtree.py", "ocfl/layout_registry.py"]

p("C01", "Every object the library writes is a valid OCFL object",
  "After any successful create, build, update or staged-version commit, the object on storage is a valid OCFL object of its declared version: exactly one declaration, a root inventory with a matching digest sidecar and a byte-identical copy in the head version directory, a manifest that lists exactly the stored content files under their true digests, and version states that refer only to (and use all of) the manifest. Every earlier version's inventory stays present and consistent with the root inventory. The library's own validator agrees that the result is valid, without errors.",
  ["histories", "inputs", "configurations"],
  "all sequences of create/build/update/stage-and-commit operations over any source trees, identifiers, content digest algorithms (sha512, sha256), content directory names, normalisation, dedupe and forward-delta settings",
  "tests write a handful of objects with one option set each, mostly compare the inventory object in memory, and 43 of them do not even run without the fixtures submodule; validity is a property of every history and option combination",
  [OBJ, NV, INV, NAM, FSW], [("write of inventory, sidecar, declaration and content", OBJ), ("assembly of manifest and state", NV)],
  [("object directory", "declaration, root inventory+sidecar, version directories", "storage")],
  ["object directory after each public call"])

p("C02", "Every version reads back exactly the files and metadata submitted",
  "For every version of an object, the mapping from logical path to file bytes obtained by reading the object (through its inventory and content files, or by extracting that version) is exactly the set of files submitted for that version, with the same bytes, no file missing, added or exchanged. The version's created, message, user name and address are those supplied. This stays true for all versions after any number of later updates.",
  ["histories", "inputs"],
  "all histories of versions, all assignments of contents to paths (shared, repeated, empty, large, reverted contents; unusual but legal path names), all metadata",
  "tests extract a few fixture objects; which copy of a content is chosen depends on the whole history of adds, deletes and reverts",
  [OBJ, NV, INV, VM, FSW, DIG], [("copy of source files into the object", OBJ), ("extract", OBJ), ("digest to content path resolution", INV)],
  None, ["extracted trees", "inventory + content files"])

p("C03", "Earlier versions are immutable: updates only append",
  "Adding a version never modifies, removes or moves any file inside an existing version directory, and changes at the object root only the inventory and its sidecar. Every earlier version keeps its logical state, its metadata and its content under every digest. A rejected, aborted or dry-run operation leaves the object byte for byte as it was.",
  ["histories", "inputs", "configurations"],
  "all histories of successful and refused updates with any settings",
  "tests check only the new head after an update; nothing compares the bytes of all earlier files",
  [OBJ, NV, INV], [("write only below the new version directory plus root inventory", OBJ)],
  None, ["byte snapshot of the whole object before and after each call"])

p("C04", "A write that fails part way never damages committed versions",
  "If any single storage operation fails, or the process stops, at any point while an object is being created, built, updated or added to a storage root, every previously committed version's content and version-directory inventory is still intact byte for byte, and files are only ever replaced at the object root. The failure is reported to the caller, and an incomplete write is never accepted by the validator unless the object is exactly the complete old or the complete new state. Two different objects in a storage root never affect each other.",
  ["crash_points", "fault_sequences", "histories"],
  "every storage operation (mkdir, file open, write, close, delete) of every write operation as the point of failure or of a crash, over all histories",
  "no test injects a failure into any write",
  [OBJ, SR, FSW], [("order of writes in create/build/write_new_version", OBJ), ("copy into the root", SR)],
  None, ["object directory after each injected fault"])

p("C05", "Staged edits behave as edits on a path-to-content map, refusals atomic",
  "While a new version is being staged, add, delete and rename change its logical state exactly as the corresponding edit of a map from logical path to content: add introduces one new path, delete removes one existing path, rename moves one existing path to an unused path. An edit that is not possible (path already present, path absent, content path outside the new version's content directory or already used, illegal or conflicting path) is refused and leaves the staged version unchanged. Nothing on storage changes before commit, and the committed version holds exactly the staged map.",
  ["histories", "inputs"],
  "all sequences of add/delete/rename/set-metadata edits, starting from an empty or a carried-forward state, including edits of content added in the same version",
  "tests run five fixed sequences; interactions (delete after add, rename of new content, re-add, same content under several paths) are combinatorial",
  [NV, INV, OBJ], [("add/delete/rename", NV), ("delete_logical_path", INV)],
  [("staged state", "logical path -> content of the version being built", NV)], ["staged logical state after each edit", "object after commit"])

p("C06", "Content is stored once, and where the storage settings say",
  "With forward delta on, content already stored by an earlier version is never stored again; with it off, each version stores its own copy of the content added in it. With dedupe on, a version directory holds at most one copy of any content; with it off, one copy per added file. Every stored file lies inside the new version's content directory, at a path derived from the source path by the chosen normalisation (or at the requested content path), and two files never share a content path.",
  ["inputs", "configurations", "histories"],
  "all combinations of dedupe, forward delta, normalisation and content directory, over all distributions of equal and different contents and colliding path names over versions",
  "tests cover one duplicate in one fixture; copies are a function of the whole history and the settings",
  [NV, INV, OU, OBJ], [("decision to copy a file", NV), ("content path mapping and collision avoidance", NV)],
  None, ["content files per version directory"])

p("C07", "Any damage to stored content or inventories is reported",
  "Validation of a stored object reports an error whenever any content file was altered, truncated, extended, deleted, swapped, renamed or added, whenever any inventory file was altered without a matching sidecar, and whenever a sidecar records a wrong digest, in any version directory. An undamaged object is never reported. A file's digest is checked against every manifest and fixity entry, of any version, that covers it.",
  ["inputs", "histories"],
  "every file of every object and every kind of single or double damage, for all digest algorithms, fixity blocks and file sizes",
  "tests damage two or three fixture files; the guarantee is about each byte of each file in each version",
  [VAL, DIG, IV], [("content and fixity digest checks", VAL), ("inventory sidecar check", VAL)],
  None, ["validation verdict and error codes"])

p("C08", "Inventories are accepted exactly when they satisfy the OCFL inventory rules",
  "An inventory is reported invalid if and only if it breaks one of the OCFL rules for inventories: required keys and types, identifier, specification type, digest algorithm, content directory name, head and version sequence, digest syntax and uniqueness, manifest and state correspondence, content and logical path syntax and conflicts, created timestamps (full date, time and timezone), user and message forms, fixity. The error codes reported name rules that are in fact broken, and a single broken rule is reported under its own code. The verdict is the same for a standalone inventory and the same inventory inside an object.",
  ["inputs"],
  "all inventories (as JSON values), for both specification versions",
  "the fixtures hold one example per rule; rules interact and each rule quantifies over all entries at any position",
  [IV, W3C, DIG, INV], [("rule checks", IV), ("timestamp syntax", W3C)],
  None, ["validation verdict and error codes"])

p("C09", "Disagreement between version inventories and the root is always reported",
  "Validation reports an error when the inventory kept in an earlier version directory contradicts the root inventory: a different identifier, a different or missing logical path, different content for a logical path, a different content directory, versions the root inventory does not have, content dropped from a later manifest, or a later specification version followed by an earlier one. Digest algorithm changes, metadata differences and absent earlier inventories alone are not errors. This holds for every version, not only the latest.",
  ["inputs", "histories"],
  "all contradictions between any version's inventory and the root inventory, over any number of versions and digest algorithms",
  "each fixture contradicts one version of a two or three version object in one way",
  [VAL, IV], [("validate_as_prior_version", IV), ("validate_version_inventories", VAL)],
  None, ["validation verdict and error codes"])

p("C10", "The structure of an object directory is fully checked",
  "Validation reports an error for every deviation of the object directory from the OCFL layout: missing, extra, malformed or wrong-content declarations, missing inventory or sidecar, unexpected files or directories in the object root, missing or unlisted version directories, unexpected files in version directories, empty directories in content, stray files in the extensions directory. Permitted extras (a logs directory, extension directories, unlisted directories in a version directory, absent earlier inventories) give at most a warning. The reported codes name deviations that are present.",
  ["inputs", "configurations"],
  "all object directory trees derived from valid objects of one or more versions by any deviations, for both specification versions",
  "one fixture per rule, in one place of one tree",
  [VAL, NAM], [("object root, extensions and version directory checks", VAL), ("declaration lookup", NAM)],
  None, ["validation verdict and error codes"])

p("C11", "Validation always gives a verdict, is repeatable and never writes",
  "Validating any object directory or any inventory file, however malformed its JSON, text encoding or tree, ends with a valid/invalid verdict and never with an unrelated exception. The verdict and the reported codes depend only on what is validated: not on earlier validations with the same validator, on whether errors or warnings are logged, or on repetition. Validation, listing, path computation and inspection never change the storage.",
  ["inputs", "histories", "configurations"],
  "all JSON values in all positions of root and version inventories, all byte strings in declaration, sidecar and inventory files, all sequences of validations with all logging options",
  "tests validate well-formed or singly broken fixtures, once each",
  [VAL, IV, "ocfl/validation_logger.py", OBJ, NAM], [("exception handling in validation", VAL), ("error counting", "ocfl/validation_logger.py")],
  None, ["verdicts, exceptions, byte snapshots"])

p("C12", "Objects added to a storage root are stored, located and listed exactly once",
  "After any sequence of additions to a storage root, each accepted object is a byte-identical copy of its source at the path the root's layout gives for its identifier, listing the root yields each accepted object exactly once with its path and identifier, and nothing else. Adding an object whose path is occupied, lies inside another object, would contain another object, or collides with the root's own files is refused. A refused addition changes nothing in the root.",
  ["histories", "inputs", "configurations"],
  "all sequences of add/list/locate operations over all identifiers and layouts, in roots that also hold permitted extra files",
  "tests add one object to a fresh root",
  [SR, FSW, OBJ] + LAYS, [("add", SR), ("object discovery walk", SR)],
  None, ["storage root tree after each call", "listing"])

p("C13", "Storage layouts map identifiers to paths deterministically and safely",
  "Each storage layout maps every identifier it accepts to the path its extension defines for the configured parameters, the same on every run, and two different identifiers never get the same path. The path is relative, normalised and inside the storage root, whatever characters the identifier contains. Identifiers and parameters that the extension does not allow are refused.",
  ["inputs", "configurations"],
  "all identifiers (any Unicode text, separators, dots, percent signs, any length) and all parameter values of all supported layouts",
  "tests check about ten identifiers per layout with default-like parameters",
  LAYS + [LAY, "ocfl/pairtree_path.py" if os.path.exists("/repo/ocfl/pairtree_path.py") else LAY, DIG], [("identifier_to_path of each layout", "ocfl/layout_*.py"), ("parameter checks", "ocfl/layout_*.py")],
  None, ["object_path results"])

p("C14", "Storage root validation verdict covers the structure and every object",
  "Validating a storage root succeeds if and only if the root's declaration and layout files are right, the hierarchy below it holds only directories leading to objects (no stray files, empty directories or unrecognised or duplicated declarations), and, when objects are checked, every object in it is valid. The number of objects and of valid objects reported equals the number present. Repeating the validation gives the same result.",
  ["inputs", "configurations"],
  "all storage root trees built from valid and invalid objects, stray files, empty directories and foreign declarations at any depth",
  "tests use a dozen fixed roots with one problem each",
  [SR, VAL], [("hierarchy walk", SR), ("per-object validation and counting", SR)],
  None, ["verdict, counts, error codes"])

p("C15", "Storage root creation is complete, exclusive and reopens identically",
  "Creating a storage root writes the declaration for the requested specification version, the layout description and the layout parameters, and the result validates. Reopening it, without being told the layout, maps every identifier to the same path as the instance that created it. Creation is refused, without changing anything, when the target exists or the version, layout or parameters are not supported.",
  ["configurations", "inputs"],
  "all supported layouts, parameter values and specification versions, and all unsupported or malformed ones",
  "tests create a few roots and look for one or two files; nothing reopens them with every layout",
  [SR, LAY, NAM] + LAYS, [("initialize", SR), ("read/write of layout parameters", LAY)],
  None, ["files in the new root", "paths given by a fresh instance"])

p("C16", "Extraction writes exactly what was asked, only below the destination",
  "Extracting a version produces at the destination exactly that version's files; extracting one logical path produces exactly that one file. A destination that is not empty, an existing file of the same name, a missing parent, an unknown version or logical path, or an invalid inventory is refused. Extraction never writes outside the destination, never overwrites existing data and never changes the object.",
  ["inputs", "histories"],
  "all objects and versions, all logical paths, all destination states, including hostile inventories",
  "tests extract from three fixtures into fresh directories",
  [OBJ, IV, FSW], [("extract / extract_file", OBJ), ("path checks in inventory validation", IV)],
  None, ["destination, its surroundings and the object before and after"])

p("C17", "Version numbers are consecutive and keep their zero-padding form",
  "Versions are numbered 1, 2, 3 ... without gaps, head is always the newest, and the version directory naming of an object (plain, or zero-padded to a width of 2 to 5) is kept by every later version, in correct numeric order beyond nine. When a zero-padded form is exhausted the update is refused rather than breaking the form. Versions are reported in numeric order.",
  ["histories", "inputs"],
  "all padding widths and version counts, including the transitions 9 to 10, 99 to 100 and the overflow of a padded form",
  "tests check the naming helper on a few strings, not objects with ten or more versions or padded forms under update",
  [INV, OU, IV, OBJ, NV], [("next version directory", OU), ("version ordering", INV)],
  None, ["version directories and head after each update"])

p("C18", "Difference reports are exact and no-difference updates are no-ops",
  "The difference reported between a staged version and its predecessor is exactly the set of logical paths added, removed or given other content. An update asked to abort when there is no difference creates no version and changes nothing if and only if the submitted files equal the latest version's files, and otherwise creates the version. An update of metadata only keeps the logical state.",
  ["histories", "inputs"],
  "all pairs of successive states over all histories, including reverts, renames, swaps and duplicated contents",
  "tests compare two or three fixed states",
  [NV, OBJ], [("diff_with_previous", NV), ("abort_if_no_difference", OBJ)],
  None, ["reported differences", "object after the call"])

p("C19", "Changing the digest algorithm preserves every version",
  "When a new version uses another digest algorithm, the new root inventory describes every version with the same logical paths, contents and metadata as before, all its digests and its only sidecar are of the new algorithm, and the old digests are kept as fixity information. Earlier version directories keep their inventories with the old algorithm. Fixity information is otherwise carried forward or dropped exactly as requested and always refers to existing content with true digests.",
  ["histories", "configurations"],
  "all histories with any number of algorithm changes at any versions, with duplicate contents, uppercase digests and fixity settings",
  "one test changes sha256 to sha512 once on one fixture",
  [OBJ, NV, INV, DIG], [("digest migration in start_new_version", OBJ), ("sidecar replacement", OBJ)],
  None, ["root and version inventories, sidecars, fixity blocks"])

p("C20", "Results do not depend on the storage backend or on how files are listed",
  "Validating, reading, listing and extracting the same object or storage root gives the same verdicts, codes, identifiers and file contents whether it is on the local filesystem, inside a zip archive or in memory, and whatever order or form the storage lists directory entries in. Files larger than the copy and digest buffers are handled like small ones.",
  ["configurations", "inputs"],
  "all objects and roots (valid and damaged) on all available backends and all directory listing orders; all file sizes",
  "a few zip roots are validated; the same content is never compared between backends",
  [FSW, VAL, SR, DIG], [("filesystem wrapper", FSW)],
  None, ["verdicts and codes per backend"])

p("C21", "BagIt import and export preserve content and metadata",
  "Exporting an object version as a bag and importing that bag yields a version with the same files, bytes, identifier, and (single-line) message, user name and e-mail address. An invalid or incomplete bag is refused. Metadata given explicitly takes precedence over that in the bag, and a conflicting identifier is refused.",
  ["inputs"],
  "all file trees and metadata values, and all damages to a bag",
  "the bag tests depend on absent fixtures and use three fixed bags",
  ["ocfl/bagger.py", OBJ, VM, "ocfl-object.py"], [("bag_as_source / bag_extracted_version", "ocfl/bagger.py")],
  None, ["files and metadata after the round trip"])

p("C22", "Command line verdicts and exit status tell the truth",
  "The validation command prints VALID and exits zero if and only if every object, storage root and standalone inventory it was given is valid, and treats each path as what its declaration says it is. The object and root commands have the same effect on storage as the library operations they stand for, and exit non-zero, without a traceback, when the operation is refused. The sidecar command writes a sidecar that matches the inventory under the inventory's own digest algorithm, or the one requested.",
  ["inputs", "configurations"],
  "all mixtures of valid and invalid paths, all options, all command lines",
  "tests run a dozen command lines and match fragments of output; exit status is rarely checked",
  ["ocfl-validate.py", "ocfl-object.py", "ocfl-root.py", "ocfl-sidecar.py", "ocfl/command_line_utils.py", OU], [("exit status", "ocfl-validate.py"), ("path type detection", OU)],
  None, ["stdout, exit status, files written"])

p("C23", "Specification versions stay coherent and never go down",
  "The object declaration and the root inventory always state the same OCFL specification version: the one requested at creation, kept by every later version. A new version never lowers the specification version, and a request to start one under a lower specification version is refused without changes. Versions of different specification versions are each checked by the rules of their own.",
  ["histories", "configurations"],
  "all histories of versions with requested specification versions 1.0 and 1.1",
  "tests create 1.0 and 1.1 objects but never compare declaration and inventory after updates",
  [OBJ, NV, VAL, IV], [("spec version handling in next_version", NV), ("declaration writing", OBJ)],
  None, ["declaration and inventories after each call"])

p("C24", "The inventory interface agrees with the inventory data",
  "Reading an inventory through its accessors (versions, logical paths, content paths, digests, latest occurrence of a path) gives exactly what the inventory data says, and its editing methods (add version, add file, delete path, manifest and fixity additions, digest normalisation) keep the inventory consistent: a path appears once per version, every state digest has a manifest entry while content is referenced, no empty entries remain. Refused edits change nothing, and writing then reading an inventory is the identity.",
  ["inputs", "histories"],
  "all inventories and all sequences of editing calls",
  "tests call each accessor on one or two fixed inventories",
  [INV, OU], [("accessors and editing methods", INV)],
  None, ["inventory data after each call"])

p("C25", "Warnings are given exactly where a recommendation is not followed",
  "For an object or inventory which breaks no rule, validation gives a warning for every recommendation of the OCFL specification that is not followed, under that recommendation's code and naming the version or entry concerned, and no other: zero-padded version names (W001), extra directories in a version directory (W002), an empty content directory (W003), an algorithm other than sha512 (W004), identifiers and user addresses that are not URIs (W005, W009), missing message or user (W007) or user address (W008), version directories without inventory (W010), metadata differing between inventories (W011), unregistered extensions (W013). Warnings never make an object invalid, and asking not to log them changes nothing else.",
  ["inputs", "configurations"],
  "all valid objects and inventories, with any combination of recommendations not followed in any version",
  "tests validate a few fixtures with one warning each (absent here); exactness over combinations and versions is not looked at",
  [IV, VAL, "ocfl/validation_logger.py"], [("recommendations of inventories", IV), ("recommendations of object directories", VAL)],
  None, ["warnings logged by validation"])

p("C26", "The tree shown for an object is complete and marks what does not belong",
  "Showing an object (Object.tree, ocfl-object.py show) displays every entry of the object's root, and below each version directory every entry of it, each exactly once and drawn below its own directory; gives the number of all the files in each content directory; marks every entry the specification does not provide for and every inventory digest beyond the first of a directory, and marks nothing that a valid object has; says whether the structure is valid; works on damaged objects as on valid ones, shows the same again, and changes nothing.",
  ["inputs", "histories"],
  "all object directories, valid or not, any extra, missing or misplaced entries",
  "one test looks for a few lines of the display of one fixture (absent here)",
  [OBJ, "ocfl-object.py"], [("display of the object", OBJ)],
  None, ["text of the display and of the message about the structure"])

p("C27", "Timestamps, declaration files and digests are written and read exactly",
  "The small texts every object is made of mean the same when written and when read. Timestamps (w3c_datetime): exactly the documented W3C forms with existing dates, times and zone offsets are read, all others refused with ValueError; the value is the moment meant, to the microsecond, a zone shifting it by exactly its offset; writing a moment gives the form YYYY-MM-DDThh:mm:ss[.ffffff]Z, rounded to microseconds or cut to seconds when asked, and reading it gives the moment back. Declarations (namaste): writing creates or replaces exactly the file named tag=tvalue with the content and a line end, finding gives all the declarations with the tag and nothing else, in order of their names, or refuses above the limit, and a declaration is accepted exactly when its content has the tvalue of its name. Digests: the digest of a file or string is its true digest under each supported algorithm whatever the size and storage, unsupported algorithms are refused, and normal forms and patterns are those of the algorithm.",
  ["inputs", "histories"],
  "all strings and moments, all directories and sequences of declaration operations, all files, strings and algorithms",
  "tests look at about 60 timestamps, a handful of declarations and one file; calendar, rounding, offsets, file sizes and combinations are not explored",
  ["ocfl/w3c_datetime.py", "ocfl/namaste.py", "ocfl/digest.py"], [("timestamps", "ocfl/w3c_datetime.py"), ("declarations", "ocfl/namaste.py"), ("digests", "ocfl/digest.py")],
  None, ["return values and exceptions", "files of the directory"])

with open("/verif/properties.jsonl", "w") as fh:
    for d in P:
        fh.write(json.dumps(d) + "\n")
print(len(P))
