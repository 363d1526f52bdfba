"""P16: little-h units, through every way of asking."""
import os
import warnings
import h5py
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, sizes
from vlib import hand
from simim.galprops import Prop, MultiProp
from simim.siminterface import SnapHandler, SimHandler

ALL = ["pos_x", "pos_y", "pos_z", "vel", "vol", "rate", "tag"]
WAY = st.sampled_from([None, True, False])
R = dict(rtol=3e-6)


@st.composite
def made(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    return {"ins": draw(st.lists(st.integers(0, 20), min_size=1, max_size=3)), "outs": [[draw(st.integers(0, 9)), "f8"] for _ in range(n)],
            "deps": [draw(st.sampled_from([0, -1, 1, 2, -3, 0.5])) for _ in range(n)], "give": draw(st.booleans()), "ret": draw(st.booleans()),
            "write": draw(st.booleans())}


@st.composite
def cases(draw):
    qs = []
    for _ in range(draw(st.integers(3, 10))):
        kind = draw(st.sampled_from(["value", "value", "stat", "stat", "range", "range", "default", "grid", "reopen"]))
        q = {"q": kind, "way": draw(WAY), "i": draw(st.integers(0, 20)), "j": draw(st.integers(0, 20)), "lo": draw(st.integers(-1, 7)), "hi": draw(st.integers(-1, 7)), "reset": draw(st.booleans()),
             "all": draw(st.booleans()), "cells": draw(st.integers(1, 3)), "lim": draw(st.booleans()), "norm": draw(st.booleans())}
        qs.append(q)
    return {"n": draw(sizes(st.integers(0, 8))), "seed": draw(SEED), "h": draw(st.sampled_from(hand.HS)), "in_h": draw(st.booleans()), "made": draw(st.lists(made(), max_size=3)),
            "qs": qs, "rewrite": draw(st.booleans())}


def bound(values, k):
    """A bound that no value is near: between two consecutive distinct ones."""
    u = np.unique(values)
    if len(u) == 0:
        return 1.0
    k = k % (len(u) + 1)
    if k == 0:
        return float(u[0]) * 0.5 - 1
    if k == len(u):
        return float(u[-1]) * 1.5 + 1
    if (u[k] - u[k - 1]) < 1e-4 * abs(u[k]):
        return float(u[0]) * 0.5 - 1
    return float(u[k - 1] + u[k]) / 2


def conv(dep, h):
    return float(h) ** dep


def snapshot(case, t):
    h, n = case["h"], case["n"]
    cat = hand.catalog(case["seed"], n, ["mass"] + ALL)
    path = os.path.join(t.scratch, "d.hdf5")
    with h5py.File(path, "w") as f:
        f.attrs["cosmo_h"] = h
        hand.write_group(f, "Snapshot 0", cat)
    cosmo = hand.cosmology(h)
    box = 50.0
    in_h = case["in_h"]

    def open_():
        return SnapHandler(path, 0, 1.0, cosmo, box, in_h_units=in_h)
    hd = open_()
    vals = {k: (np.asarray(v, float), hand.STORED[k][2]) for k, v in cat.items()}  # in h units
    unsaved = set()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for j, p in enumerate(case["made"]):
            pool = sorted(vals)
            ins = sorted({pool[i % len(pool)] for i in p["ins"]})
            names = [f"new{j}_{i}" for i in range(len(p["outs"]))]
            spec = {"ins": ins, "outs": p["outs"], "short": None}
            f = hand.Func(spec)
            kw = dict(kwargs=ins, give_args_in_h_units=p["give"], function_return_in_h_units=p["ret"])
            if len(names) == 1:
                pr = Prop(names[0], f, h_dependence=p["deps"][0], units="u", **kw)
            else:
                pr = MultiProp(names, f, h_dependence=p["deps"], units=["u"] * len(names), **kw)
            hd.make_property(pr, use_all_inds=True, write_to_disk=p["write"])
            args = {k: vals[k][0] * (1 if p["give"] else conv(vals[k][1], h)) for k in ins}
            for k in ins:
                t.close(f.calls[-1][k].astype(float), args[k], f"property {k!r} handed to a function that wants {'h' if p['give'] else 'physical'} units (handler default {'h' if in_h else 'physical'})", **R)
            out = hand.evaluate(spec, args)
            out = [out] if len(names) == 1 else out
            for nm, o, dep in zip(names, out, p["deps"]):
                vals[nm] = (o if p["ret"] else o / conv(dep, h), dep)
                if not p["write"]:
                    unsaved.add(nm)
        active = np.ones(n, bool)
        touched = set()
        for s, q in enumerate(case["qs"]):
            pool = sorted(vals)
            k, k2 = pool[q["i"] % len(pool)], pool[q["j"] % len(pool)]
            v, dep = vals[k]
            way = q["way"]
            eff = in_h if way is None else way
            fac = 1 if eff else conv(dep, h)
            what = f"step {s}: {q['q']} of {k!r} (h^{dep}, h={h}) in {'h' if eff else 'physical'} units ({'default' if way is None else 'asked for'})"
            kwway = {} if way is None else {"in_h_units": way}
            if q["q"] == "value":
                got = hd.return_property(k, use_all_inds=q["all"], **kwway)
                t.close(np.asarray(got, float), (v if q["all"] else v[active]) * fac, what, **R)
                if dep:
                    touched.add(eff)
            elif q["q"] == "stat":
                v2, dep2 = vals[k2]
                fac2 = 1 if eff else conv(dep2, h)
                kw = {} if way is None else {"give_args_in_h_units": way}
                if k2 == k:
                    a = hd.eval_stat(lambda a, scale=1: np.array(a, float) * scale, ["a"], kw_remap={"a": k}, use_all_inds=q["all"], other_kws={"scale": 2.0}, **kw)
                    t.close(a, 2 * (v if q["all"] else v[active]) * fac, what + ": argument of the statistic", **R)
                else:
                    fn = lambda **kw: [np.array(kw[k], float), np.array(kw["b"], float)]
                    a, b = hd.eval_stat(fn, [k, "b"], kw_remap={"b": k2}, use_all_inds=q["all"], **kw)
                    t.close(a, (v if q["all"] else v[active]) * fac, what + ": argument of the statistic", **R)
                    t.close(b, (v2 if q["all"] else v2[active]) * fac2, what + f": renamed argument {k2!r} of the statistic", **R)
                if dep:
                    touched.add(eff)
                for name, want in (("h", h), ("redshift", 1.0), ("box_edge_h", box), ("box_edge_no_h", box / h), ("box_edge", box if in_h else box / h)):
                    t.close(float(hd.eval_stat(lambda x: x, ["x"], kw_remap={"x": name})), want, f"{what}: {name} handed to a statistic", rtol=1e-12)
            elif q["q"] == "range":
                lo, hi = bound(v, q["lo"]), bound(v, q["hi"])
                sel = np.ones(n, bool)
                kw = dict(kwway)
                if q["lo"] >= 0:
                    kw["pmin"] = lo * fac
                    sel &= v >= lo
                if q["hi"] >= 0:
                    kw["pmax"] = hi * fac
                    sel &= v <= hi
                hd.set_property_range(k, reset=q["reset"], **kw)
                active = sel if q["reset"] else sel & active
                t.check(hd.nhalos_active == active.sum(), f"{what}: {hd.nhalos_active} objects selected by {kw}, expected {active.sum()}")
                t.close(hd.return_property("mass", in_h_units=True), vals["mass"][0][active], what + ": masses selected", rtol=0)
                if dep and 0 < active.sum() < n:
                    t.label("partial selection on a scaled property")
                    touched.add(eff)
            elif q["q"] == "default":
                in_h = not in_h if way is None else way
                hd.set_in_h_units(in_h)
            elif q["q"] == "reopen":
                hd = open_()
                vals = {x: y for x, y in vals.items() if x not in unsaved}
                unsaved = set()
                active = np.ones(n, bool)
            elif q["q"] == "grid":
                c = q["cells"]
                side = box if eff else box / h
                lim = (side / 4, side) if q["lim"] else (0, side)
                kw = dict(kwway)
                if q["lim"]:
                    kw["ylim"] = lim
                if q["norm"]:
                    kw["norm"] = "cell_volume"
                g = hd.grid(k, res=[side / c, (lim[1] - lim[0]) / c, side / c], use_all_inds=q["all"], **kw)
                t.close(np.asarray(g.side_length, float), [side, lim[1] - lim[0], side], what + ": side length of the grid", rtol=1e-9)
                t.close(np.asarray(g.center_point, float), [side / 2, (lim[0] + lim[1]) / 2, side / 2], what + ": center of the grid", rtol=1e-9)
                m = np.ones(n, bool) if q["all"] else active
                y = vals["pos_y"][0] / box
                near = np.zeros(n, bool)
                for ax, (a, b) in zip(("pos_x", "pos_y", "pos_z"), ((0, 1), (lim[0] / side, lim[1] / side), (0, 1))):
                    u = (vals[ax][0] / box - a) / (b - a) * c
                    near |= np.abs(u - np.round(u)) < 1e-5
                if np.any(near & m):
                    t.label("object on a cell boundary, placement not judged")
                else:
                    want = np.zeros((c, c, c))
                    for i in np.nonzero(m)[0]:
                        u = [(vals[ax][0][i] / box - a) / (b - a) * c for ax, (a, b) in zip(("pos_x", "pos_y", "pos_z"), ((0, 1), (lim[0] / side, lim[1] / side), (0, 1)))]
                        if all(0 <= x < c for x in u):
                            want[tuple(int(x) for x in u)] += v[i] * fac
                    vol = side * side * (lim[1] - lim[0]) / c ** 3
                    t.close(g.grid[..., 0], want / vol if q["norm"] else want, what + ": gridded values", rtol=1e-5, atol=1e-12)
                    touched.add(eff)
            t.check(np.isclose(hd.box_edge, box if in_h else box / h), f"{what}: box edge {hd.box_edge}")
    t.nontrivial(n > 1 and h != 1.0 and len(touched) == 2)


@st.composite
def simcases(draw):
    return {"ns": [draw(st.integers(0, 5)) for _ in range(draw(st.integers(1, 3)))], "seed": draw(SEED), "h": draw(st.sampled_from(hand.HS)), "in_h": draw(st.booleans()),
            "init": draw(st.booleans()), "flip": draw(st.booleans()), "i": draw(st.integers(0, 20)), "lo": draw(st.integers(0, 7)), "way": draw(WAY), "p": draw(made()),
            "lm": draw(st.lists(st.one_of(st.floats(5, 15), st.floats(9.8, 13)), min_size=1, max_size=4)), "vol": draw(st.sampled_from([1.0, 37.5, 1e4])), "box": draw(st.sampled_from([50.0, 20.0]))}


def simulation(case, t):
    h, box = case["h"], case["box"]
    cosmo = hand.cosmology(h)
    idx = [10 - 3 * i for i in range(len(case["ns"]))]
    table = hand.snap_table(cosmo, idx, [0.4 * (i + 1) for i in range(len(idx))])
    cats = {i: hand.catalog(case["seed"] + i, n, ["mass"] + ALL) for i, n in zip(idx, case["ns"])}
    folder = os.path.join(t.scratch, "sim")
    hand.write_sim(folder, h, 0.3, 0.05, box, table, cats)
    hand.register(folder)
    in_h = case["in_h"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = SimHandler("_testbox", init_snaps=case["init"], in_h_units=in_h)
        if case["flip"]:
            in_h = not in_h
            sim.set_in_h_units(in_h)
        way = case["way"]
        eff = in_h if way is None else way
        kwway = {} if way is None else {"in_h_units": way}
        tag = f"h={h}, default {'h' if in_h else 'physical'}, asked {way}"
        t.check(np.isclose(sim.box_edge, box if in_h else box / h), f"box edge {sim.box_edge} ({tag})")
        vol = case["vol"]
        t.close(float(sim.number_volumes(vol, **kwway)), (box if eff else box / h) ** 3 / vol, f"number of volumes of {vol} in the box ({tag})", rtol=1e-12)
        k = sorted(ALL)[case["i"] % len(ALL)]
        dep = hand.STORED[k][2]
        fac = 1 if eff else conv(dep, h)
        kw = {} if way is None else {"give_args_in_h_units": way}
        got, zs = sim.snap_stat(lambda a: np.array(a, float), ["a"], kw_remap={"a": k}, **kw)
        order = list(table["index"])
        t.close(np.array(zs, float), [float(table["redshift"][table["index"] == i][0]) for i in order], f"redshifts of the statistics ({tag})", rtol=1e-12)
        for g, i in zip(got, order):
            t.close(g, cats[i][k].astype(float) * fac, f"{k!r} handed to the statistic of snapshot {i} ({tag})", **R)
        for i in order:
            sn = sim.get_snap(i)
            t.close(np.asarray(sn.return_property(k), float), cats[i][k].astype(float) * (1 if in_h else conv(dep, h)), f"{k!r} of get_snap({i}) in the simulation handler's units ({tag})", **R)
            m = cats[i]["mass"]
            for lm in case["lm"]:
                # clear of the float32 edges of the table: the guarantee is 'every object at or above'
                x = 10 ** lm
                n = int(sim.get_mass_index(x if eff else x / h, i, **kwway))
                t.check(n >= int(np.sum(m >= x * (1 + 1e-6))), f"mass index of {x:.6g} Msun/h in snapshot {i}: {n} rows, but {int(np.sum(m >= x))} objects are as massive ({tag})")
                t.check(n <= int(np.sum(m >= x / 10 ** 0.1001)) or x < 1.0001e6, f"mass index of {x:.6g} Msun/h in snapshot {i}: {n} rows, but only {int(np.sum(m >= x / 10**0.1001))} objects come within a step of the table ({tag})")
        t.raises(lambda: sim.get_mass_index(1e10, 999), "mass index of an unknown snapshot")
        if case["init"]:
            allv = np.concatenate([c[k].astype(float) for c in cats.values()])
            b = bound(allv, case["lo"])
            sim.set_property_range(k, pmin=b * fac, **kwway)
            for i in order:
                sel = cats[i][k].astype(float) >= b
                sn = sim.get_snap(i)
                t.close(sn.return_property("mass", in_h_units=True), cats[i]["mass"][sel], f"masses of snapshot {i} selected by {k!r} >= {b * fac} ({tag})", rtol=0)
            p = case["p"]
            spec = {"ins": [k], "outs": [p["outs"][0]], "short": None}
            pr = Prop("new", hand.Func(spec), [k], give_args_in_h_units=p["give"], function_return_in_h_units=p["ret"], h_dependence=p["deps"][0], units="u")
            sim.make_property(pr, use_all_inds=True)
            for i in order:
                a = cats[i][k].astype(float) * (1 if p["give"] else conv(dep, h))
                v = hand.evaluate(spec, {k: a}) / (1 if p["ret"] else conv(p["deps"][0], h))
                t.close(sim.get_snap(i).return_property("new", use_all_inds=True, in_h_units=False), v * conv(p["deps"][0], h), f"property made from {k!r} in physical units, snapshot {i} ({tag})", **R)
    t.nontrivial(sum(case["ns"]) > 1 and h != 1.0)


CHECKS = [Check("snapshot", cases(), snapshot, quick=3000, thorough=30000), Check("simulation", simcases(), simulation, quick=480, thorough=6000)]
