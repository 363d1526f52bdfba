"""P20: the registry of locations against a dictionary kept on disk."""
import builtins
import os
import warnings
import h5py
import numpy as np
from vlib.hyp import st
from vlib.core import Check, Violation
from vlib import hand
from simim._paths import _SimIMPaths, setupsimim
from simim.lightcone import LCHandler, LCMaker
from simim.siminterface import SimHandler, UniversemachineCatalogs

SIMS = ["TNG100-1", "TNG100-1-Dark", "_testbox", "UniverseMachine-SMDPL"]
PROPS = ["behroozi13", "ir", "irx"]
NAMES = {"sim": SIMS, "lc": SIMS, "prop": PROPS}
DIRS = ["a", "a b", "a b c", "x y/z w", "TNG100-1", "ü", " lead", "a  b", "trail ", "x/y ", "a\tb"]
ROOTS = ["root one", "two"]
ANSWERS = [["y"], ["n"], ["", "yes", "y"], ["N", "n"]]


@st.composite
def cases(draw):
    ops = [{"op": "root", "r": draw(st.integers(0, 1)), "reply": ["y"]}] if draw(st.integers(0, 7)) else []
    for _ in range(draw(st.integers(4, 14))):
        op = draw(st.sampled_from(["new", "new", "new", "new", "new", "new", "reopen", "root", "setup", "query", "query", "catalog", "catalog", "catalog", "lcmaker"]))
        o = {"op": op}
        if op == "new":
            o.update(kind=draw(st.sampled_from(["sim", "sim", "lc", "prop"])), name=draw(st.integers(0, 3)), to=draw(st.one_of(st.just("auto"), st.integers(0, len(DIRS) - 1), st.integers(0, len(DIRS) - 1))), how=draw(st.sampled_from(["abs", "abs", "rel", "slash", "ask", "askbad"])),
                     check=draw(st.integers(0, 3)) > 0, reply=draw(st.sampled_from(ANSWERS)), inst=draw(st.integers(0, 1)))
        elif op == "root":
            o.update(r=draw(st.integers(0, 2)), reply=draw(st.sampled_from(ANSWERS)), confirm=draw(st.sampled_from([None, ["y"], ["n"], ["what", "y"]])), rel=draw(st.integers(0, 2)) == 0)
        elif op == "setup":
            o.update(r=draw(st.integers(-1, 2)), reply=draw(st.sampled_from(ANSWERS)), confirm=draw(st.sampled_from([["y"], ["n"]])), rel=draw(st.integers(0, 2)) == 0)
        elif op == "catalog":
            o.update(to=draw(st.one_of(st.just("auto"), st.integers(0, len(DIRS) - 1))), update=draw(st.booleans()), reply=draw(st.sampled_from(ANSWERS)))
        elif op == "lcmaker":
            o.update(n=draw(st.integers(0, 3)))
        ops.append(o)
    return {"ops": ops}


class Ask:
    """Answers the questions of the code under test from a list."""

    def __init__(self, answers):
        self.answers = list(answers)

    def __call__(self, *a):
        if not self.answers:
            raise Violation(f"asks {a} after everything was answered")
        return self.answers.pop(0)

    def __enter__(self):
        self.old = builtins.input
        builtins.input = self
        return self

    def __exit__(self, *a):
        builtins.input = self.old


def history(case, t):
    S = t.scratch
    os.environ["HOME"], oldhome = os.path.join(S, "home dir"), os.environ.get("HOME")
    oldcwd = os.getcwd()
    rootfile = os.path.join(os.path.dirname(os.path.abspath(__import__("simim").__file__)), "resources", "rootpath.txt")
    keep = open(rootfile).read() if os.path.exists(rootfile) else None
    try:
        if keep is not None:
            os.remove(rootfile)
        for d in DIRS + ROOTS + ["home dir", "cwd"]:
            os.makedirs(os.path.join(S, d), exist_ok=True)
        os.chdir(os.path.join(S, "cwd"))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _history(case, t, S)
    finally:
        os.chdir(oldcwd)
        if oldhome is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = oldhome
        if keep is not None:
            with open(rootfile, "w") as f:
                f.write(keep)
        elif os.path.exists(rootfile):
            os.remove(rootfile)


SUB = {"sim": "simulations", "lc": "lightcones", "prop": "galprops"}


def fill(d, tag):
    """A one-halo simulation in d, recognisable by its tag."""
    if not os.path.exists(os.path.join(d, "data.hdf5")):
        c = hand.cosmology(0.7)
        cat = {"mass": np.array([1e11]), "pos_x": np.array([1.0]), "pos_y": np.array([1.0]), "pos_z": np.array([1.0]), "tag": np.array([tag])}
        hand.write_sim(d, 0.7, 0.3, 0.05, 50.0, hand.snap_table(c, [0], [1.0]), {0: cat})


def _history(case, t, S):
    disk = {}  # root -> {kind: {name: path}}
    root = None
    inst = []
    paths_seen = 0

    def empty():
        return {"sim": {}, "lc": {}, "prop": {}}

    def current():
        return disk.get(root, empty()) if root is not None else empty()

    def fresh():
        return {"obj": _SimIMPaths(), "root": root, "view": {k: dict(v) for k, v in current().items()}}

    def compare(i, what):
        o = i["obj"]
        t.check(o.root == i["root"], f"{what}: data directory {o.root!r}, expected {i['root']!r}")
        for k, attr in (("sim", "sims"), ("lc", "lcs"), ("prop", "props")):
            t.check(getattr(o, attr) == i["view"][k], f"{what}: {attr} are {getattr(o, attr)}, expected {i['view'][k]}")

    def rootpath(r):
        return os.path.join(S, (ROOTS + ["no such dir"])[r])

    inst = [fresh(), fresh()]
    replaced = 0
    for s, op in enumerate(case["ops"]):
        what = f"step {s} {op}"
        k = op["op"]
        if k == "reopen":
            inst = [fresh(), fresh()]
        elif k in ("root", "setup"):
            home = op["r"] == -1
            target = os.environ["HOME"] if home else rootpath(op["r"])
            me = fresh()
            # a path may be given relative to where one is now; it has to be good elsewhere too
            asked_for = os.path.relpath(target) if op.get("rel") and not home and target != me["root"] else target
            answers = [] if k == "root" else [("" if home else asked_for)]
            ok = os.path.exists(target)
            if ok or k == "root":
                asks = me["root"] is not None and target != me["root"]
                if asks:
                    answers += op["reply"]
                    if op["reply"][-1] == "n":
                        target, ok = me["root"], True
                if ok and op.get("confirm"):
                    answers += op["confirm"]
            with Ask(answers) as q:
                if not ok:
                    t.raises((lambda: me["obj"]._setuppath(asked_for)) if k == "root" else setupsimim, f"{what}: missing data directory", NameError)
                elif k == "root":
                    me["obj"]._setuppath(asked_for, confirm_with_user=bool(op.get("confirm")))
                else:
                    setupsimim()
            t.check(not q.answers, f"{what}: did not ask for {q.answers}")
            if ok and (not op.get("confirm") or op["confirm"][-1] == "y"):
                root = target
                disk.setdefault(root, empty())
                for kind, sub in SUB.items():
                    t.check(os.path.isdir(os.path.join(root, "simim_resources", sub)), f"{what}: no folder for {sub} was made")
            if k == "root" and not ok:
                compare(me, what)
            inst = [fresh(), fresh()]
        elif k == "new":
            i = inst[op["inst"]]
            name = NAMES[op["kind"]][op["name"] % len(NAMES[op["kind"]])]
            call = getattr(i["obj"], {"sim": "_newsimpath", "lc": "_newlcpath", "prop": "_newproppath"}[op["kind"]])
            auto = op["to"] == "auto"
            path = os.path.join(i["root"] or S, "simim_resources", SUB[op["kind"]], name) if auto else os.path.join(S, DIRS[op["to"]])
            arg = "auto" if auto else path
            bad = False
            answers = []
            known = name in i["view"][op["kind"]]
            refuse = False
            if known and op["check"]:
                answers += op["reply"]
                refuse = op["reply"][-1] == "n"
            if not auto:
                if op["how"] == "rel":
                    arg = os.path.join("..", DIRS[op["to"]])
                elif op["how"] == "slash":
                    arg = path + "/"
                elif op["how"] in ("ask", "askbad"):
                    arg = None
                    bad = op["how"] == "askbad"
                    if not refuse:
                        answers += [path + " gone" if bad else path]
            with Ask(answers) as q:
                if i["root"] is None:
                    q.answers = []
                    t.raises(lambda: call(name, new_path=arg, checkoverwrite=op["check"]), f"{what}: location without a data directory", ValueError)
                elif bad and not refuse:
                    t.raises(lambda: call(name, new_path=arg, checkoverwrite=op["check"]), f"{what}: missing location", NameError)
                else:
                    call(name, new_path=arg, checkoverwrite=op["check"])
                    if not refuse:
                        i["view"][op["kind"]][name] = path
                        disk[i["root"]][op["kind"]][name] = path
                        replaced += known
                        t.check(not auto or os.path.isdir(path), f"{what}: the automatic folder was not made")
            t.check(not q.answers, f"{what}: did not ask for {q.answers}")
        elif k == "query":
            me = current()["sim"]
            for name in SIMS:
                if name not in me:
                    t.raises(lambda: SimHandler(name), f"{what}: simulation {name}, never registered", ValueError)
                else:
                    fill(me[name], len(me[name]))
                    h = SimHandler(name)
                    t.check(os.path.samefile(h.path, me[name]), f"{what}: SimHandler({name}) reads {h.path}, registered is {me[name]}")
                    t.equal(float(h.get_snap(0).return_property("tag")[0]), float(len(me[name])), f"{what}: catalog behind {name}")
                if name not in current()["lc"]:
                    t.raises(lambda: LCHandler(name, "x", 0), f"{what}: light cones of {name}, never registered", ValueError)
        elif k == "catalog" and root is not None:
            name = "_testbox"
            have = current()["sim"]
            auto = op["to"] == "auto"
            path = os.path.join(S, DIRS[op["to"]]) if not auto else None
            answers = op["reply"] if (not auto and op["update"] and name in have) else []
            with Ask(answers) as q:
                c = UniversemachineCatalogs(name, path="auto" if auto else path, updatepath=op["update"])
            t.check(not q.answers, f"{what}: did not ask for {q.answers}")
            want = path if not auto else have.get(name, os.path.join(root, "simim_resources", "simulations", name))
            t.check(os.path.samefile(c.path, want), f"{what}: catalog kept in {c.path}, expected {want}")
            if auto:
                have.setdefault(name, want)
            elif op["update"] and (not answers or answers[-1] == "y"):
                have[name] = path
            inst = [fresh(), fresh()]
            t.raises(lambda: UniversemachineCatalogs(name, path=os.path.join(S, "gone"), updatepath=True), f"{what}: missing location", NameError)
        elif k == "lcmaker" and root is not None:
            name = "_testbox"
            if name in current()["sim"]:
                fill(current()["sim"][name], len(current()["sim"][name]))
                m = LCMaker(name, f"cone {s}", 1.0, redshift_max=0.5, overwrite=True)
                base = current()["lc"].setdefault(name, os.path.join(root, "simim_resources", "lightcones", name))
                want = os.path.join(base, f"cone {s}")
                t.check(m.lc_path == want and os.path.isdir(want), f"{what}: light cones go to {m.lc_path}, expected {want}")
                t.check(m.sim_path == current()["sim"][name], f"{what}: light cones are made from {m.sim_path}, registered is {current()['sim'][name]}")
                inst = [fresh(), fresh()]
        for i in inst:
            if k != "new" or i is inst[op.get("inst", 0)]:
                compare(i, what)
        compare(fresh(), what + ", reopened")
    total = sum(len(v) for r in disk.values() for v in r.values())
    if replaced:
        t.label("replaced")
    t.nontrivial(total >= 2)


@st.composite
def quick_cases(draw):
    """Few names and places, so that names return to places they had, roots to
    roots, and sessions end in between."""
    kinds = draw(st.sampled_from([["sim"], ["lc"], ["prop"], ["sim", "lc", "prop"]]))
    dirs = draw(st.lists(st.integers(0, len(DIRS) - 1), min_size=2, max_size=3, unique=True))
    ops = [{"op": "root", "r": 0, "inst": 0}]
    for _ in range(draw(st.integers(3, 12))):
        op = draw(st.sampled_from(["new"] * 6 + ["reopen", "root"]))
        o = {"op": op, "inst": draw(st.sampled_from([0, 0, 0, 1]))}
        if op == "new":
            o.update(kind=draw(st.sampled_from(kinds)), name=draw(st.integers(0, 2)), to=draw(st.sampled_from(["auto"] + dirs + dirs)),
                     check=draw(st.booleans()), reply=draw(st.sampled_from(ANSWERS)))
        elif op == "root":
            o["r"] = draw(st.integers(0, 1))
        ops.append(o)
    return {"ops": ops}


def registry(case, t):
    S = t.scratch
    rootfile = os.path.join(os.path.dirname(os.path.abspath(__import__("simim").__file__)), "resources", "rootpath.txt")
    keep = open(rootfile).read() if os.path.exists(rootfile) else None
    try:
        if keep is not None:
            os.remove(rootfile)
        for d in ROOTS:
            os.makedirs(os.path.join(S, d), exist_ok=True)
        disk = {}
        session = {"root": None}

        def fresh():
            r = session["root"]
            return {"obj": _SimIMPaths(), "root": r, "view": {k: dict(disk[r][k]) if r else {} for k in NAMES}}

        def compare(i, what):
            t.check(i["obj"].root == i["root"], lambda: f"{what}: data directory {i['obj'].root!r}, expected {i['root']!r}")
            for k, attr in (("sim", "sims"), ("lc", "lcs"), ("prop", "props")):
                t.check(getattr(i["obj"], attr) == i["view"][k], lambda: f"{what}: {attr} are {getattr(i['obj'], attr)}, expected {i['view'][k]}")
        inst = [fresh(), fresh()]
        back = set()
        hist = {}
        for s, op in enumerate(case["ops"]):
            what = f"step {s} {op}"
            i = inst[op["inst"]]
            if op["op"] == "reopen":
                inst = [fresh(), fresh()]
            elif op["op"] == "root":
                target = os.path.join(S, ROOTS[op["r"]])
                with Ask(["y"] if i["root"] not in (None, target) else []) as q:
                    i["obj"]._setuppath(target)
                t.check(not q.answers, lambda: f"{what}: did not ask")
                disk.setdefault(target, {k: {} for k in NAMES})
                session["root"] = target
                i["root"], i["view"] = target, {k: dict(disk[target][k]) for k in NAMES}
            elif i["root"] is not None:
                name = NAMES[op["kind"]][op["name"] % len(NAMES[op["kind"]])]
                path = os.path.join(i["root"], "simim_resources", SUB[op["kind"]], name) if op["to"] == "auto" else os.path.join(S, DIRS[op["to"]])
                call = getattr(i["obj"], {"sim": "_newsimpath", "lc": "_newlcpath", "prop": "_newproppath"}[op["kind"]])
                ask = op["check"] and name in i["view"][op["kind"]]
                with Ask(op["reply"] if ask else []) as q:
                    call(name, new_path="auto" if op["to"] == "auto" else path, checkoverwrite=op["check"])
                t.check(not q.answers, lambda: f"{what}: did not ask for {q.answers}")
                if not (ask and op["reply"][-1] == "n"):
                    i["view"][op["kind"]][name] = disk[i["root"]][op["kind"]][name] = path
                    h = hist.setdefault((i["root"], op["kind"], name), [])
                    if path in h and h[-1] != path:
                        back.add(name)
                    h.append(path)
            for j in inst:
                compare(j, what)
            compare(fresh(), what + ", reopened")
    finally:
        if keep is not None:
            with open(rootfile, "w") as f:
                f.write(keep)
        elif os.path.exists(rootfile):
            os.remove(rootfile)
    if back:
        t.label("a name returned to a place it had")
    t.nontrivial(bool(hist) and max(map(len, hist.values())) > 1)


CHECKS = [Check("registry", quick_cases(), registry, quick=6000, thorough=60000), Check("history", cases(), history, quick=320, thorough=12000)]
