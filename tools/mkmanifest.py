"""Write MANIFEST.json from properties.jsonl and the notes below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; "
RULES = TECH + "verdicts of the real validators on generated object trees judged by TLC against OcflRules.tla"
LIFE = TECH + "traces of create/build/update/stage/commit/extract/read operations recorded from the real code, every step judged by TLC against OcflSteps.tla"
MODEL = TECH + "constructive model OcflObject.tla explored exhaustively in small instances and its steps replayed on the real code; random traces of operations recorded from the real code; every step judged by TLC against OcflSteps.tla"
LB = "Bounded: random traces of up to 16 operations on objects of up to 12 versions, with up to 6 files per version from a fixed set of unusual names and contents; all options varied. "
FAULT = TECH + "OcflWrite.tla (every order and point of stopping of a write) explored exhaustively; every storage operation of writing operations made to fail, or taken as a crash point, on the real code; the resulting trees judged by TLC against FaultJudge.tla"
LAYOUT = TECH + "LayoutModel.tla explored exhaustively (safety, invertibility of every layout); paths and parameter decisions of the real layouts judged by TLC against OcflLayout.tla, exhaustively for short identifiers"
ROOT = TECH + "traces of operations on storage roots recorded from the real code, every step judged by TLC against OcflRoot.tla"
CLI = TECH + "invocations of ocfl-validate.py, ocfl-sidecar.py, ocfl-object.py and ocfl-root.py (arguments, output, exit status, storage before and after) judged by TLC against OcflCli.tla, OcflSteps.tla and OcflRoot.tla"
RB = "Bounded: random roots of up to about 10 objects, all layouts, random deviations of structure, hierarchy and objects. "
NOTES = {
    "C04": (FAULT, LB + "Faults are injected into local file system calls (mkdir, open for writing, write, close, delete); single faults only."),
    "C12": (ROOT, RB + "Objects of a later specification version than the root's are not judged (E081)."),
    "C13": (LAYOUT, "Exhaustive for identifiers of up to 3 characters over 14 (code) or 16 (model) characters; random beyond. Digests are supplied by the harness. Missing parameters, floating point integers and blake2b are not judged."),
    "C14": (ROOT, RB + "Validity of each object is judged by OcflRules.tla."),
    "C15": (ROOT, "Bounded: random creations with all layouts and parameters on present, absent and impossible targets."),
    "C01": (MODEL, LB + "Validity is judged by OcflRules.tla and must agree with the library's validator."),
    "C02": (MODEL, LB + "Contents are compared as byte identities."),
    "C03": (MODEL, LB + "The whole object and its surroundings are compared byte for byte around each operation."),
    "C05": (MODEL, LB + "Content paths which collide only through normalisation may be refused or renamed."),
    "C06": (MODEL, LB + "When an added file is deleted again before commit the number of copies is judged as a range."),
    "C16": (MODEL, LB + "Includes damaged objects and inventories with escaping paths."),
    "C17": (LIFE, LB + "Padding widths 2 to 5; exhaustion is reached only for width 2."),
    "C18": (LIFE, LB),
    "C19": (MODEL, LB + "An explicit list of fixity algorithms adds no new values (not implemented by the library)."),
    "C21": (TECH + "traces of imports from and exports to BagIt bags (library and ocfl-object.py) recorded from the real code, every step judged by TLC against OcflBag.tla and OcflSteps.tla",
            LB + "Validity of bags is decided by OcflBag.tla, not by the bagit library; bags whose validity depends on fetch.txt, repeated elements or unusual syntax are not judged. Metadata values which do not fit on a line and addresses other than mailto: are not expected to survive."),
    "C22": (CLI, "Bounded: random objects, roots, inventories and option combinations. The tools run in forked interpreters, a few percent as separate processes. Running ocfl-validate.py without paths is not judged."),
    "C23": (LIFE, LB),
    "C20": (TECH + "the same objects and storage roots validated, read, listed and extracted on local, memory and zip storage with different listing orders and forms, judged by TLC against OcflRules.tla, OcflSteps.tla and OcflRoot.tla",
            "Bounded: random objects and roots, contents around the sizes of the buffers. Cloud storage and storage whose listings name the directory itself are not available here."),
    "C24": (TECH + "InvModel.tla explored exhaustively, every one of its transitions replayed on the real Inventory class, and random sequences of calls recorded from it, judged by TLC against OcflInv.tla",
            "Exhaustive for the model's inventories (two versions, two contents, two paths); random beyond. Inventories written with an empty list of paths and contentDirectory \"\" are not judged."),
    "C25": (TECH + "warnings of the real validators on generated objects and inventories judged by TLC against OcflWarn.tla",
            "Bounded: objects of up to 4 versions. W004 under lax digests, identifiers which may or may not be URIs, and names of extensions registered later are not judged."),
    "C26": (TECH + "displays by Object.tree and ocfl-object.py show of generated valid and damaged objects judged by TLC against OcflShow.tla",
            "Bounded: objects of up to 4 versions with up to three changes. Names with line breaks, the order of entries, and what is said of logs and extensions are not judged."),
    "C27": (TECH + "TextModel.tla (calendar, writing and reading of moments) explored exhaustively and its dates replayed on the code; calls and traces recorded from ocfl.w3c_datetime, ocfl.namaste and ocfl.digest judged by TLC against OcflText.tla",
            "Exhaustive for every date of 40 (thorough: 220) years; random beyond. True digests are supplied by hashlib. The direction in which a zone shifts is the one the repository's tests fix (opposite to RFC 3339). Half microseconds, fractions of seconds far from the present, and carriage returns in declarations are not judged."),
    "C07": (RULES, "Bounded: objects of up to 4 versions, random damage of every kind; file digests are true digests, abstracted to byte identities in the specification."),
    "C08": (RULES, "Bounded: single and double mutations (about 90 kinds) of random valid inventories, by themselves and inside an object. Open points of the OCFL text are not judged."),
    "C09": (RULES, "Bounded: one contradicting or differing inventory among up to 4 versions."),
    "C10": (RULES, "Bounded: one or two deviations of the directory tree of objects of up to 4 versions."),
    "C11": (RULES, "Bounded: malformed trees and JSON; each validated repeatedly in different settings."),
}
PENDING = "not claimed yet: its check is being built"


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in ids:
        if p not in NOTES:
            na.append({"property": p, "reason": PENDING})
            continue
        t, n = NOTES[p]
        cmd = "/opt/venv/bin/python -W ignore check.py --property %s --tier " % p
        checks.append({"property": p, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "technique": t,
                       "level": "model_checking", "level_note": n})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore tools/setup.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
