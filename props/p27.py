"""P27: property definitions against a recording function and a fake catalog."""
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, sizes

DEP = {"mass": -1, "sfr": 0, "vol": -3, "rate": 1, "x": 0.5, "tag": 0}
EXTRA = ["cosmo", "redshift0", "box"]
HS = [0.5, 0.6774, 0.7, 1.0, 1.3]


class Target:
    """What a handler offers to a property definition."""

    def __init__(self, seed, n, h, active):
        r = np.random.default_rng(seed)
        self.h = h
        self.cols = {k: r.integers(1, 1000, n) / 8.0 for k in DEP}
        self.cols["tag"] = r.integers(0, 100, n)
        self.extra_props = {"cosmo": object(), "redshift0": 1.25, "box": 50.0}
        self.active = np.nonzero(r.random(n) < active)[0]
        self.log = []

    def has_property(self, name):
        return name in self.cols

    def return_property(self, name, use_all_inds=False, in_h_units=None):
        v = self.value(name, use_all_inds, bool(in_h_units))
        self.log.append(name)
        return v

    def value(self, name, use_all_inds, in_h_units):
        v = self.cols[name]
        if not use_all_inds:
            v = v[self.active]
        if not in_h_units and DEP[name] != 0:
            v = v * self.h**DEP[name]
        return v.copy()

    def snapshot(self):
        return {k: v.copy() for k, v in self.cols.items()}, dict(self.extra_props), self.active.copy(), self.h


@st.composite
def definitions(draw):
    k = draw(st.integers(1, 4))
    ins = draw(st.lists(st.sampled_from(list(DEP) + EXTRA + ["a", "b"]), min_size=1, max_size=4, unique=True))
    remap = {i: draw(st.sampled_from(list(DEP) + EXTRA + ["nothing"])) for i in ins if i in ("a", "b") or draw(st.integers(0, 3)) == 0}
    if draw(st.integers(0, 5)) == 0:
        remap = {}
    if draw(st.integers(0, 3)) == 0:
        remap["unused"] = "mass"
    return {"k": k, "ins": ins, "remap": remap, "extra": draw(st.sampled_from([{}, {}, {"p": 2.5}, {"p": 1, "q": 4}])), "give": draw(st.booleans()), "ret": draw(st.booleans()),
            "units": draw(st.sampled_from(["one", "each", "each", "bad"])), "dep": draw(st.sampled_from(["one", "each", "each", "bad"])), "deps": [draw(st.sampled_from([-3, -1, 0, 0, 0.5, 1, 2])) for _ in range(k)],
            "kind": draw(st.sampled_from(["multi", "multi", "single"])), "wrap": draw(st.booleans()), "out": draw(st.sampled_from(["list", "list", "tuple", "array"])), "count": draw(st.sampled_from([0, 0, 0, 0, 0, 1, -1])),
            "alias": draw(st.booleans()), "n": draw(sizes(st.integers(0, 6))), "h": draw(st.sampled_from(HS)), "seed": draw(SEED), "active": draw(st.sampled_from([0.0, 0.5, 1.0])), "all": draw(st.booleans()), "times": draw(st.integers(1, 2)), "int": draw(st.booleans())}


def formula(args, j, as_int):
    v = 1.0 + j
    for i, k in enumerate(sorted(args)):
        x = args[k]
        v = v + (i + 2) * (x if isinstance(x, (int, float, np.ndarray)) else 3.0)
    return np.asarray(v).astype(int) if as_int else np.asarray(v) * 1.0


def definition(case, t):
    from simim.galprops import galprops
    tg = Target(case["seed"], case["n"], case["h"], case["active"])
    k, single = case["k"], case["kind"] == "single"
    if single:
        k = 1
    names = [f"out{j}" for j in range(k)]
    units = [f"u{j}" for j in range(k)]
    deps = case["deps"][:k]
    calls, given = [], []

    def fn(**kw):
        calls.append(kw)
        outs = [formula(kw, j, case["int"]) for j in range(k if single or (k == 1 and case["wrap"]) else max(k + case["count"], 0))]
        given.append([o.copy() for o in outs])
        if single or (k == 1 and case["wrap"]):
            calls[-1]["_outs"] = outs
            return outs[0]
        outs = {"list": list, "tuple": tuple, "array": np.array}[case["out"]](outs)
        calls[-1]["_outs"] = outs
        return outs
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        flags = {}
        if case["give"]:
            flags["give_args_in_h_units"] = True
        if case["ret"]:
            flags["function_return_in_h_units"] = True
        if single:
            cls = galprops.prop if case["alias"] else galprops.Prop
            p = cls(names[0], fn, list(case["ins"]), units=units[0], h_dependence=deps[0], **flags)
        else:
            cls = galprops.multiprop if case["alias"] else galprops.MultiProp
            us = {"one": ["u"], "each": units, "bad": units + ["u", "u"]}[case["units"]]
            ds = {"one": deps[:1], "each": deps, "bad": deps + [0, 0]}[case["dep"]]

            def make():
                return cls(list(names), fn, list(case["ins"]), units=list(us), h_dependence=list(ds), wrap=case["wrap"], **flags)
            if len(us) not in (1, k) or len(ds) not in (1, k):
                t.raises(make, f"{k} properties with {len(us)} units and {len(ds)} scalings", ValueError)
                t.label("bad declaration")
                return
            p = make()
            units = us * k if len(us) == 1 else us
            deps = ds * k if len(ds) == 1 else ds
        t.check(list(p.names) == names and p.n_props == k, f"names {p.names}")
        t.check(p.units == dict(zip(names, units)), f"units {p.units}, declared {units}")
        t.check(p.h_dependence == dict(zip(names, deps)), f"scalings {p.h_dependence}, declared {deps}")
        if single:
            t.check(p.name == names[0] and p.unit == units[0] and p.h_dep == deps[0], f"name, unit, scaling of a single property {p.name, p.unit, p.h_dep}")
        src = {i: case["remap"].get(i, i) for i in case["ins"]}
        missing = [i for i in case["ins"] if src[i] not in DEP and src[i] not in EXTRA]
        remap, extra = dict(case["remap"]), dict(case["extra"])
        wrapped = single or (k == 1 and case["wrap"])
        for rep in range(case["times"]):
            use_all = case["all"] if rep == 0 else not case["all"]
            before = tg.snapshot()
            calls.clear(), given.clear(), tg.log.clear()
            kw = {"use_all_inds": use_all} if use_all or case["seed"] % 2 else {}
            if remap:
                kw["kw_remap"] = remap
            if extra:
                kw["kw_arguments"] = extra
            what = f"{case['ins']} renamed by {remap}, extra {extra}, all {use_all}"
            if missing:
                t.raises(lambda: p.evaluate(tg, **kw), f"{what}: inputs {missing} do not exist", ValueError)
                t.check(not calls, f"{what}: the function was called although inputs are missing")
                t.label("missing")
            elif not wrapped and case["count"] != 0:
                t.raises(lambda: p.evaluate(tg, **kw), f"{what}: {k + case['count']} results for {k} properties", ValueError)
                t.label("wrong number")
            else:
                for method in ("evaluate", "evaluate_all"):
                    calls.clear(), given.clear()
                    got = getattr(p, method)(tg, **kw)
                    t.check(len(calls) == 1, f"{what}: the function was called {len(calls)} times")
                    args = dict(calls[0])
                    outs = args.pop("_outs")
                    t.check(set(args) == set(case["ins"]) | set(extra), f"{what}: called with {sorted(args)}")
                    for i in case["ins"]:
                        if src[i] in DEP:
                            t.close(args[i], tg.value(src[i], use_all, case["give"]), f"{what}: argument {i}", rtol=1e-13)
                        else:
                            t.check(args[i] is tg.extra_props[src[i]], f"{what}: argument {i} is {args[i]}")
                    for e in extra:
                        t.check(args[e] == extra[e], f"{what}: extra argument {e}")
                    if single and method == "evaluate":
                        got = [got]
                    t.check(len(got) == k, f"{what}: {len(got)} results")
                    for j in range(k):
                        want = formula(args, j, case["int"])
                        if not case["ret"] and deps[j] != 0:
                            want = want / tg.h**deps[j]
                        t.close(np.asarray(got[j], float), np.asarray(want, float), f"{what}: result {j} (scaling {deps[j]}, returned {'in' if case['ret'] else 'without'} h, h={tg.h})", rtol=1e-12)
                    # the arrays the function produced are still what they were
                    for o, g in zip(outs, given[0]):
                        t.check(np.array_equal(np.asarray(o), g), f"{what}: the function's own result was changed")
            t.check(remap == case["remap"] and extra == case["extra"], f"{what}: the caller's dictionaries changed")
            after = tg.snapshot()
            t.check(all(np.array_equal(before[0][c], after[0][c]) for c in before[0]) and before[1] == after[1] and np.array_equal(before[2], after[2]), f"{what}: the catalog changed")
            t.check(list(p.names) == names and p.units == dict(zip(names, units)) and p.h_dependence == dict(zip(names, deps)), f"{what}: the definition changed")
    t.label(case["kind"], "properties:" + str(k))
    t.nontrivial(case["n"] > 0 and not missing and case["h"] != 1 and any(d != 0 for d in deps))


# name: (module, function, names, inputs)
CO = ["L10", "L21", "L32", "L43", "L54", "L65", "L76", "L87", "L98", "L109", "L1110", "L1211", "L1312"]
BUILTIN = {
    "prop_co_sled": ("line_co", "kamenetzky16", CO, ["sfr"]), "prop_li_co": ("line_co", "li16", ["LCO"], ["sfr"]), "prop_lidz_co": ("line_co", "lidz11", ["LCO"], ["mass"]),
    "prop_pullen_co": ("line_co", "pullen13", ["LCO"], ["mass", "redshift", "cosmo"]), "prop_keating_co": ("line_co", "keating16", ["LCO"], ["mass"]),
    "prop_gao_hcn": ("line_densegas", "hcn_gao", ["LHCN"], ["sfr"]), "prop_breysse_hcn": ("line_densegas", "hcn_breysse", ["LHCN"], ["mass"]),
    "prop_delooze_fir": ("line_fir", "delooze14", ["Lfir"], ["sfr"]), "prop_uzgil_fir": ("line_fir", "uzgil14", ["Lfir"], ["sfr"]), "prop_spinoglio_fir": ("line_fir", "spinoglio12", ["Lfir"], ["sfr"]),
    "prop_schaerer_cii": ("line_fir", "schaerer20", ["LCII"], ["sfr"]), "prop_yang_cii": ("line_fir_yang", "yang22", ["LCII"], ["mass", "redshift"]), "prop_padmanabhan_cii": ("line_fir", "padmanabhan19", ["LCII"], ["mass", "redshift"]),
    "prop_zhao_nii": ("line_fir", "zhao13", ["LNII"], ["sfr"]), "prop_behroozi_sfr": ("sfr_behroozi13", "sfr", ["sfr"], ["redshift", "mass"]), "prop_behroozi_mass": ("sfr_behroozi13", "stellarmass", ["stellar mass"], ["redshift", "mass"]),
    "prop_delooze_cii": ("line_fir", "delooze14", ["Lfir"], ["sfr"]), "prop_uzgil_cii": ("line_fir", "uzgil14", ["Lfir"], ["sfr"]), "prop_spinoglio_cii": ("line_fir", "spinoglio12", ["Lfir"], ["sfr"]),
}


class Halos(Target):
    def __init__(self, seed, n, h, active):
        super().__init__(seed, n, h, active)
        r = np.random.default_rng(seed)
        from astropy.cosmology import FlatLambdaCDM
        self.cols = {"mass": 10 ** r.uniform(10, 13.5, n) * h, "sfr": 10 ** r.uniform(-2, 2.5, n), "redshift": r.uniform(0, 6, n), "other": 10 ** r.uniform(10, 13, n) * h}
        self.extra_props = {"cosmo": FlatLambdaCDM(H0=70, Om0=0.3)}

    def value(self, name, use_all_inds, in_h_units):
        v = self.cols[name] if use_all_inds else self.cols[name][self.active]
        return v / self.h if not in_h_units and name in ("mass", "other") else v.copy()


@st.composite
def builtins_(draw):
    return {"name": draw(st.sampled_from(sorted(BUILTIN))), "n": draw(sizes(st.integers(1, 6), large=(1500, 9000))), "seed": draw(SEED), "h": draw(st.sampled_from(HS)), "active": draw(st.sampled_from([0.5, 1.0])), "all": draw(st.booleans()), "rng": draw(SEED), "remap": draw(st.booleans())}


def builtin(case, t):
    import importlib
    from simim.galprops import galprops_builtin as B
    mod, fname, names, ins = BUILTIN[case["name"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = getattr(B, case["name"])
        fn = getattr(importlib.import_module("simim.galprops." + mod), fname)
        tg = Halos(case["seed"], case["n"], case["h"], case["active"])
        t.check(list(p.names) == names, f"{case['name']} provides {p.names}")
        unit = "Msun/yr" if names == ["sfr"] else "Msun" if names == ["stellar mass"] else "Lsun"
        t.check(set(p.units.values()) == {unit} and set(p.h_dependence.values()) == {0}, f"{case['name']}: units {p.units}, scalings {p.h_dependence}")
        src = {i: i for i in ins}
        kw = {"kw_arguments": {"rng": np.random.default_rng(case["rng"])}}
        if case["remap"] and "mass" in ins:
            kw["kw_remap"] = {"mass": "other"}
            src["mass"] = "other"
        if not case["all"] and len(tg.active) == 0:
            return
        got = p.evaluate_all(tg, use_all_inds=case["all"], **kw)
        args = {i: tg.extra_props[i] if i == "cosmo" else tg.value(src[i], case["all"], False) for i in ins}
        want = fn(**args, rng=np.random.default_rng(case["rng"]))
        want = want if len(names) > 1 else [want]
        for nm, g, w in zip(names, got, want):
            t.close(g, w, f"{case['name']}: {nm}", rtol=1e-12)
            t.check(np.shape(g) == np.shape(next(iter(args.values()))), f"{case['name']}: {nm} has shape {np.shape(g)}")
    t.label(case["name"])
    t.nontrivial(case["n"] > 1 and case["h"] != 1)


CHECKS = [Check("definition", definitions(), definition, quick=3500, thorough=20000), Check("builtin", builtins_(), builtin, quick=1000, thorough=4000)]
