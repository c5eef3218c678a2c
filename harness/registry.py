"""Which models and families decide which property."""
import fam_back as fk
import fam_bag as fb
import fam_cli as fc
import fam_fault as ff
import fam_inv as fi
import fam_layout as fy
import fam_life as fl
import fam_model as fm
import fam_root as fr
import fam_show as fh
import fam_text as ft
import fam_store as fs
import fam_valid as fv
import fam_warn as fw
from engine import Family, Model


def wrap(fn):
    return lambda c: [fn(c)]


def life(prop, *parts):
    """Families of traces of one object; parts: (profile, number, options)."""
    return [Family("life-" + "-".join([pr] + sorted(o)), fl.gen(pr, **o), fl.run, "LifeJudge", n, chunk=500,
                   clauses=lambda c: c.startswith(prop + ".")) for pr, n, o in parts]


def model(cfg, prop, n, tier):
    """The constructive model, model checked, and its steps replayed on the code:
    those of n of its states (all of them, thorough)."""
    clauses = lambda c: c.startswith(prop + ".")  # noqa: E731
    if tier == "thorough":
        return [Model("ObjectVersions", cfg, timeout=800), Family("model-" + cfg, fm.gen(cfg, 10**6), fm.run_all, "LifeJudge", fm.size(cfg, 10**6), chunk=300, clauses=clauses)]
    return [Model("ObjectVersions", cfg), Family("model-" + cfg, fm.gen(cfg, n), fm.run, "LifeJudge", fm.size(cfg, n), chunk=500, clauses=clauses)]


ADD = {"add-", "list-", "bad-root-listed", "locate", "unsafe-path", "refused-add", "good-object-refused", "source-changed", "storage-changed", "list"}
CREATE = {"create-", "refused-create", "good-create", "bad-create", "locate", "unsafe-path"}
VALIDATE = {"no-verdict", "bad-root-accepted", "root-code", "bad-hierarchy", "hierarchy-code", "bad-object", "object-count", "good-count", "good-root", "storage-changed", "not-repeatable"}
CODES = {"root-code", "hierarchy-code", "bad-objects-named"}     # of what the validator returns, not printed as such by the tools


def root(names, *parts):
    """Families of traces of storage roots; parts: (mode, number, options)."""
    return [Family("root-" + "-".join([m] + sorted(o)), fr.gen(m, **o), fr.run, "RootJudge", n, chunk=600,
                   clauses=lambda c: any(c.startswith(x) for x in names)) for m, n, o in parts]


def store(names, cfg, n, tier):
    """The constructive model of storage roots, model checked, and its steps replayed on the code."""
    clauses = lambda c: any(c.startswith(x) for x in names)  # noqa: E731
    if tier == "thorough":
        return [Model("OcflStore", "OcflStore3", timeout=800), Family("model-" + cfg, fs.gen(cfg, 10**6), fs.run_all, "RootJudge", fs.size(cfg, 10**6), chunk=600, clauses=clauses)]
    return [Model("OcflStore", cfg), Family("model-" + cfg, fs.gen(cfg, n), fs.run, "RootJudge", fs.size(cfg, n), chunk=600, clauses=clauses)]


def size(tier, scale, quick, factor=8):
    return max(1, int(quick * scale * (factor if tier == "thorough" else 1)))


def plan(prop, tier, seed, scale):
    q = lambda n, f=8: size(tier, scale, n, f)  # noqa: E731
    tree = wrap(fv.run_tree)
    A = dict(algkeep=1)
    return {
        "C01": lambda: life("C01", ("write", q(350), {}), ("mix", q(350), {}), ("refuse", q(150), {})) + model("ObjectVersions", "C01", 60, tier),
        "C02": lambda: life("C02", ("mix", q(350), {"big": 0.05}), ("extract", q(250), {}), ("write", q(200), {"big": 0.05})) + model("ObjectBuild", "C02", 120, tier),
        "C03": lambda: life("C03", ("write", q(350), {}), ("edit", q(150), {}), ("refuse", q(450), {"bad": 0.3})) + model("ObjectVersions", "C03", 100, tier),
        "C04": lambda: [Model("OcflWrite", timeout=800),
                        Family("fault", ff.gen(), ff.run, "FaultJudge", q(160), chunk=400),
                        Family("fault-race", ff.gen(nerr=3, length=8, profile="race"), ff.run, "FaultJudge", q(80), chunk=400),
                        Family("fault-root", ff.gen_root(), ff.run_root, "RootFaultJudge", q(60), chunk=400)],
        "C05": lambda: life("C05", ("edit", q(700), {"length": 16}), ("mix", q(200), {})) + model("ObjectEdit", "C05", 250, tier),
        "C06": lambda: life("C06", ("write", q(450), {}), ("edit", q(250), {"length": 14}), ("mix", q(150), {"initial": 0.2})) + model("ObjectAlgs", "C06", 200, tier),
        "C12": lambda: root(ADD, ("add", q(1100), {}), ("add", q(300), {"told": 0.5, "badsrc": 0.3})) + store(ADD, "OcflStore", 250, tier),
        "C13": lambda: [Model("LayoutModel", "LayoutModel4" if tier == "thorough" else "LayoutModel"),
                        Family("grid", fy.gen_grid(3), fy.run, "LayoutJudge", fy.grid_size(3), chunk=130),
                        Family("identifiers", fy.gen_random, fy.run, "LayoutJudge", q(700), chunk=1000),
                        Family("parameters", fy.gen_params, fy.run, "LayoutJudge", q(1500), chunk=2000)],
        "C14": lambda: root(VALIDATE, ("validate", q(1600), {}), ("add", q(250), {})) + store(VALIDATE, "OcflStore", 250, tier),
        "C15": lambda: root(CREATE, ("create", q(2400), {})) + store(CREATE, "OcflStore", 150, tier),
        "C16": lambda: life("C16", ("extract", q(800), {})) + model("ObjectBuild", "C16", 150, tier),
        "C17": lambda: life("C17", ("long", q(120), {}), ("write", q(300), {}), ("refuse", q(100), {"bad": 0.0})),
        "C18": lambda: life("C18", ("mix", q(350), {}), ("edit", q(300), {}), ("write", q(200), {})),
        "C19": lambda: life("C19", ("write", q(450), A), ("mix", q(250), A)) + model("ObjectAlgs", "C19", 200, tier),
        "C20": lambda: [Family("validation", fk.gen_object, fk.run_object, "RulesJudge", q(450), chunk=300),
                        Family("extraction", fk.gen_life("extract"), fk.run_life, "LifeJudge", q(150), chunk=500),
                        Family("writing", fk.gen_life("write", big=0.1), fk.run_life, "LifeJudge", q(150), chunk=500),
                        Family("roots", fk.gen_root("validate"), fk.run_root, "RootJudge", q(150), chunk=600),
                        Family("additions", fk.gen_root("add"), fk.run_root, "RootJudge", q(100), chunk=600)],
        "C21": lambda: [Family("bag", fb.gen, fb.run, "LifeJudge", q(1500), chunk=500)],
        "C22": lambda: [Family("cli-validate", fc.validate_gen, fc.validate_run, "CliJudge", q(500), chunk=600),
                        Family("cli-sidecar", fc.sidecar_gen, fc.sidecar_run, "CliJudge", q(400), chunk=1000),
                        Family("cli-object", fc.life_gen, fc.life_run, "LifeJudge", q(250), chunk=500),
                        Family("cli-create", fc.root_gen("create"), fc.root_run, "RootJudge", q(250), chunk=600, clauses=lambda c: c not in CODES),
                        Family("cli-add", fc.root_gen("add"), fc.root_run, "RootJudge", q(150), chunk=600, clauses=lambda c: c not in CODES),
                        Family("cli-root", fc.root_gen("validate"), fc.root_run, "RootJudge", q(200), chunk=600, clauses=lambda c: c not in CODES)],
        "C23": lambda: life("C23", ("spec", q(450), {}), ("write", q(200), {"initial": 0.0})),
        "C24": lambda: [Model("InvModel"), Model("InvModel", "InvModelHead"),
                        Family("transitions", fi.gen_model(), fi.run_model, "InvJudge", fi.model_size(), chunk=100),
                        Family("inventory", fi.gen, fi.run, "InvJudge", q(1200), chunk=2000)],
        "C25": lambda: [Family("warnings", fw.gen, fw.run, "WarnJudge", q(700), chunk=2000)],
        "C26": lambda: [Family("show", fh.gen, fh.run, "ShowJudge", q(1500), chunk=1500)],
        "C27": lambda: [Model("TextModel", "TextModel4" if tier == "thorough" else "TextModel", timeout=900),
                        Family("model-dates", ft.gen_model(tier == "thorough"), ft.run_model, "TextJudge", len(ft.model_years(tier == "thorough")), chunk=500),
                        Family("texts", ft.gen, ft.run, "TextJudge", q(2400), chunk=1200)],
        "C07": lambda: [Family("damage", fv.gen_c07, tree, "RulesJudge", q(2400))],
        "C08": lambda: [Family("inventory", fv.gen_c08, fv.run_inv, "RulesJudge", q(1600))],
        "C09": lambda: [Family("versions", fv.gen_c09, tree, "RulesJudge", q(2400))],
        "C10": lambda: [Family("structure", fv.gen_c10, tree, "RulesJudge", q(2400))],
        "C11": lambda: [Family("total", fv.gen_c11, fv.run_total, "RulesJudge", q(1600))],
    }[prop]()


def level(prop):
    return "model_checking"
