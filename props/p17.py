"""P17: selections against a mask, histories of restrictions, resets and uses."""
import os
import warnings
import h5py
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, sizes
from vlib import hand
from simim.galprops import Prop
from simim._handlers import Handler
from simim.siminterface import SnapHandler, SimHandler

ALL = ["pos_x", "pos_y", "pos_z", "vel", "tag", "rate"]


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        op = draw(st.sampled_from(["range", "range", "range", "range", "reset", "make", "make", "stat", "stat", "load", "unload", "units", "grid", "resetall"]))
        o = {"op": op, "i": draw(st.integers(0, 30)), "j": draw(st.integers(0, 30))}
        if op == "range":
            o.update(lo=draw(st.one_of(st.none(), st.integers(0, 9))), hi=draw(st.one_of(st.none(), st.integers(0, 9))), off=draw(st.sampled_from([0, 0, 0, 1, -1])),
                     reset=draw(st.sampled_from([True, False, False, None])), style=draw(st.sampled_from(["kw", "pos"])))
        elif op == "make":
            o.update(all=draw(st.booleans()), k=draw(st.integers(0, 5)), name=draw(st.sampled_from(["d1", "d2", "vel"])), kind=draw(st.sampled_from(["f8", "int", "f4"])))
        elif op == "stat":
            o.update(all=draw(st.booleans()), fn=draw(st.sampled_from(["sum", "count", "argmax", "identity", "pair"])))
        ops.append(o)
    return {"n": draw(sizes(st.integers(0, 9))), "seed": draw(SEED), "ties": draw(st.booleans()), "in_h": draw(st.booleans()), "base": draw(st.booleans()), "ops": ops}


def beside(v, off):
    """A bound at, above or below v, by more than single precision rounds."""
    return float(v) + off * max(1 / 16, abs(float(v)) * 1e-5)


def history(case, t):
    # h=1 where bounds have to coincide with values exactly in both unit systems
    n = case["n"]
    cat = hand.catalog(case["seed"], n, ["mass"] + ALL, box=4.0 if case["ties"] else 50.0, ties=case["ties"])
    if case["ties"] and n:
        cat["vel"] = np.floor(cat["vel"] / 10)
    path = os.path.join(t.scratch, "d.hdf5")
    with h5py.File(path, "w") as f:
        f.attrs["cosmo_h"] = 1.0
        hand.write_group(f, "Snapshot 0", cat)
    if case["base"]:
        hd = Handler(path, "thing", "Snapshot 0", case["in_h"])
    else:
        hd = SnapHandler(path, 0, 1.0, hand.cosmology(1.0), 50.0, in_h_units=case["in_h"])
    vals = dict(cat)
    active = np.ones(n, bool)
    parts = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s, o in enumerate(case["ops"]):
            pool = sorted(vals)
            k, k2 = pool[o["i"] % len(pool)], pool[o["j"] % len(pool)]
            what = f"step {s} ({o['op']} {k!r})"
            if o["op"] == "range":
                u = np.unique(vals[k][~np.isnan(vals[k].astype(float))]).astype(float)
                kw, sel = {}, np.ones(n, bool)
                v = vals[k].astype(float)
                lo = hi = None
                if o["lo"] is not None and len(u):
                    lo = beside(u[o["lo"] % len(u)], o["off"])
                    kw["pmin"] = lo
                if o["hi"] is not None and len(u):
                    hi = beside(u[o["hi"] % len(u)], o["off"])
                    kw["pmax"] = hi
                with np.errstate(invalid="ignore"):
                    sel = (v >= (-np.inf if lo is None else lo)) & (v <= (np.inf if hi is None else hi))
                if o["style"] == "pos" and lo is not None:
                    a = [k, kw.pop("pmin")] + ([kw.pop("pmax")] if hi is not None else [])
                else:
                    a = [k]
                if o["reset"] is not None:
                    kw["reset"] = o["reset"]
                hd.set_property_range(*a, **kw)
                active = sel & active if o["reset"] is False else sel
                what += f" between {lo} and {hi}, reset={o['reset']}"
                if 0 < active.sum() < n:
                    parts += 1
                    t.label("partial selection")
                    if o["reset"] is False:
                        t.label("combined")
            elif o["op"] in ("reset", "resetall"):
                hd.set_property_range(*([] if o["op"] == "reset" else [None]))
                active = np.ones(n, bool)
            elif o["op"] == "make":
                src = [k] if k == k2 else [k, k2]
                spec = {"ins": src, "outs": [[o["k"], o["kind"]]], "short": None}
                f = hand.Func(spec)
                hd.make_property(Prop(o["name"], f, src), overwrite=True, use_all_inds=o["all"])
                sel = np.ones(n, bool) if o["all"] else active
                for a in src:
                    t.close(f.calls[-1][a].astype(float), vals[a][sel].astype(float), f"{what}: {a!r} handed to the property function (all={o['all']})", rtol=0)
                out = hand.evaluate(spec, {a: vals[a][sel] for a in src})
                full = np.full(n, np.nan) if not sel.all() else np.zeros(n, out.dtype)
                full[sel] = out
                vals[o["name"]] = full
                if not sel.all():
                    t.label("made for a part")
            elif o["op"] == "stat":
                sel = np.ones(n, bool) if o["all"] else active
                v = vals[k][sel].astype(float)
                kw = {"use_all_inds": True} if o["all"] else {}
                if o["fn"] == "sum":
                    t.close(hd.eval_stat(np.sum, ["a"], kw_remap={"a": k}, **kw), np.sum(vals[k][sel]), f"{what}: sum", rtol=1e-6)
                elif o["fn"] == "count":
                    t.equal(hd.eval_stat(lambda **x: len(x[k]), [k], **kw), int(sel.sum()), f"{what}: count")
                elif o["fn"] == "argmax":
                    t.close(hd.eval_stat(lambda a, p: np.array(a, float)[::-1] * p, ["a"], {"a": k}, {"p": 3}, **kw), v[::-1] * 3, f"{what}: statistic with an argument", rtol=0)
                elif o["fn"] == "identity":
                    t.close(hd.eval_stat(lambda **x: np.array(x[k], float), [k], **kw), v, f"{what}: values and their order", rtol=0)
                else:
                    r = hd.eval_stat(lambda a, b: np.array([a, b], float), ["a", "b"], {"a": k, "b": k2}, **kw)
                    t.close(r, np.array([v, vals[k2][sel].astype(float)]), f"{what}: two arguments", rtol=0)
            elif o["op"] == "load":
                if k in cat and k != "vel":
                    hd.load_property(k)
            elif o["op"] == "unload":
                if k in cat and k != "vel":
                    hd.unload_property(k)
            elif o["op"] == "units":
                hd.set_in_h_units(bool(o["j"] % 2))
            elif o["op"] == "grid" and not case["base"]:
                box = 50.0
                g = hd.grid(k, k2, res=box, use_all_inds=bool(o["j"] % 2))
                sel = np.ones(n, bool) if o["j"] % 2 else active
                t.close(g.grid.reshape(-1), [np.sum(vals[a][sel].astype(float)) for a in (k, k2)], f"{what}: totals gridded (all={bool(o['j'] % 2)})", rtol=1e-6)
            t.check(hd.nhalos_active == int(active.sum()), f"{what}: {hd.nhalos_active} active objects, expected {int(active.sum())}")
            t.close(hd.return_property("mass"), cat["mass"][active], f"{what}: active masses", rtol=0)
            for a in {k, k2}:
                t.close(np.asarray(hd.return_property(a), float), vals[a][active].astype(float), f"{what}: active values of {a!r}", rtol=0)
                t.close(np.asarray(hd.return_property(a, use_all_inds=True), float), vals[a].astype(float), f"{what}: all values of {a!r}", rtol=0)
    t.nontrivial(parts > 0)


@st.composite
def simcases(draw):
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        op = draw(st.sampled_from(["range", "range", "range", "reset", "make", "stat", "one"]))
        ops.append({"op": op, "i": draw(st.integers(0, 30)), "lo": draw(st.one_of(st.none(), st.integers(0, 12))), "hi": draw(st.one_of(st.none(), st.integers(0, 12))),
                    "reset": draw(st.booleans()), "all": draw(st.booleans()), "s": draw(st.integers(0, 2))})
    return {"ns": [draw(st.integers(0, 6)) for _ in range(draw(st.integers(1, 3)))], "seed": draw(SEED), "in_h": draw(st.booleans()), "ops": ops}


def simulation(case, t):
    cosmo = hand.cosmology(1.0)
    idx = [1 + 4 * i for i in range(len(case["ns"]))]
    table = hand.snap_table(cosmo, idx, [0.7 * (len(idx) - i) for i in range(len(idx))])
    cats = {i: hand.catalog(case["seed"] + i, n, ["mass"] + ALL) for i, n in zip(idx, case["ns"])}
    folder = os.path.join(t.scratch, "sim")
    hand.write_sim(folder, 1.0, 0.3, 0.05, 50.0, table, cats)
    hand.register(folder)
    vals = {i: dict(c) for i, c in cats.items()}
    active = {i: np.ones(len(c["mass"]), bool) for i, c in cats.items()}
    parts = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = SimHandler("_testbox", init_snaps=True, in_h_units=case["in_h"])
        for s, o in enumerate(case["ops"]):
            pool = sorted(vals[idx[0]])
            k = pool[o["i"] % len(pool)]
            what = f"step {s} ({o['op']} {k!r})"
            if o["op"] in ("range", "one"):
                allv = np.unique(np.concatenate([v[k].astype(float) for v in vals.values()]))
                allv = allv[~np.isnan(allv)]
                kw = {}
                if o["lo"] is not None and len(allv):
                    kw["pmin"] = float(allv[o["lo"] % len(allv)])
                if o["hi"] is not None and len(allv):
                    kw["pmax"] = float(allv[o["hi"] % len(allv)])
                which = idx
                if o["op"] == "one":
                    which = [idx[o["s"] % len(idx)]]
                    sim.get_snap(which[0]).set_property_range(k, reset=o["reset"], **kw)
                else:
                    sim.set_property_range(k, reset=o["reset"], **kw)
                for i in which:
                    v = vals[i][k].astype(float)
                    with np.errstate(invalid="ignore"):
                        sel = (v >= kw.get("pmin", -np.inf)) & (v <= kw.get("pmax", np.inf))
                    active[i] = sel if o["reset"] else sel & active[i]
                    parts += 0 < active[i].sum() < len(v)
            elif o["op"] == "reset":
                sim.set_property_range()
                active = {i: np.ones(len(c["mass"]), bool) for i, c in cats.items()}
            elif o["op"] == "make":
                spec = {"ins": [k], "outs": [[1, "f8"]], "short": None}
                sim.make_property(Prop("new", hand.Func(spec), [k]), overwrite=True, use_all_inds=o["all"])
                for i in idx:
                    sel = np.ones(len(active[i]), bool) if o["all"] else active[i]
                    full = np.full(len(sel), np.nan)
                    full[sel] = hand.evaluate(spec, {k: vals[i][k][sel]})
                    vals[i]["new"] = full
            elif o["op"] == "stat":
                sub = [i for j, i in enumerate(idx) if j != o["s"]] or idx
                if o["i"] % 2:
                    sub = sub[::-1]
                kw = {"use_all_inds": True} if o["all"] else {}
                got, zs = sim.snap_stat(lambda a, b: np.array(a, float) * b, ["a"], {"a": k}, other_kws={"b": 2}, snaps=sub, **kw)
                t.check(len(got) == len(sub), f"{what}: {len(got)} results for {len(sub)} snapshots")
                for g, i, z in zip(got, sub, zs):
                    sel = np.ones(len(active[i]), bool) if o["all"] else active[i]
                    t.close(g, 2 * vals[i][k][sel].astype(float), f"{what}: statistic of snapshot {i} (all={o['all']})", rtol=0)
                    t.close(float(z), float(table["redshift"][table["index"] == i][0]), f"{what}: redshift of snapshot {i}", rtol=1e-12)
            for i in idx:
                sn = sim.get_snap(i)
                t.check(sn.nhalos_active == int(active[i].sum()), f"{what}: {sn.nhalos_active} active objects in snapshot {i}, expected {int(active[i].sum())}")
                t.close(np.asarray(sn.return_property(k), float), vals[i][k][active[i]].astype(float), f"{what}: active {k!r} in snapshot {i}", rtol=0)
    t.nontrivial(parts > 0)


CHECKS = [Check("history", cases(), history, quick=2500, thorough=30000), Check("simulation", simcases(), simulation, quick=400, thorough=6000)]
