"""P15: handler histories against a dictionary."""
import os
import shutil
import warnings
import h5py
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, sizes
from vlib import hand
from simim.galprops import Prop, MultiProp
from simim.siminterface import SnapHandler, SimHandler

NEW = ["p", "q", "long name", "mass2"]
OPT = ["pos_x", "vel", "tag", "rate", "count"]


@st.composite
def propdefs(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    ins = draw(st.lists(st.integers(0, 30), min_size=1, max_size=2))
    exact = draw(st.booleans())
    kinds = ["f8", "f4", "int", "bool"] if exact else ["f8", "f4"]
    return {"ins": ins, "outs": [[draw(st.integers(0, 9)), draw(st.sampled_from(kinds))] for _ in range(n)],
            "deps": [draw(st.sampled_from([0, -1, 2, -3])) for _ in range(n)], "exact": exact, "ret_h": exact or draw(st.booleans()),
            "names": draw(st.permutations(NEW + OPT).map(lambda x: x[:n])), "rename": draw(st.integers(0, 3)) == 0,
            "extra": draw(st.sampled_from([None, None, 5.0])), "remap": draw(st.booleans()),
            "short": draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, n - 1))), "wrap": draw(st.booleans())}


NAME = st.sampled_from(NEW + OPT)


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(4, 16))):
        op = draw(st.sampled_from(["make", "make", "make", "make", "write", "write", "write", "load", "load", "unload", "unload", "delete", "reopen", "range", "range", "bad"]))
        o = {"op": op}
        if op == "make":
            o.update(p=draw(propdefs()), overwrite=draw(st.integers(0, 3)) > 0, all=draw(st.booleans()), write=draw(st.integers(0, 3)) == 0,
                     unload=draw(st.booleans()), dtype=draw(st.sampled_from([None, None, "f8", "f4"])), owdisk=draw(st.booleans()))
        elif op == "write":
            o.update(names=draw(st.lists(NAME, min_size=1, max_size=2, unique=True)), pick=draw(st.integers(0, 20)), overwrite=draw(st.booleans()), dtype=draw(st.sampled_from([None, None, "f8", "f4"])))
        elif op in ("load", "unload", "delete"):
            o.update(names=draw(st.lists(NAME, min_size=1, max_size=2, unique=True)), pick=draw(st.integers(0, 20)))
        elif op == "range":
            o.update(k=draw(st.one_of(st.none(), st.integers(0, 6))), upper=draw(st.booleans()))
        elif op == "reopen":
            o["h"] = draw(st.booleans())
        elif op == "bad":
            o["kind"] = draw(st.sampled_from(["return", "load", "write", "delete", "set", "rename"]))
        ops.append(o)
    return {"n": draw(sizes(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 5, 4, 6]))), "seed": draw(SEED), "h": draw(st.sampled_from(hand.HS)), "in_h": draw(st.booleans()),
            "stored": sorted(draw(st.sets(st.sampled_from(OPT), min_size=1))), "ops": ops}


def build_prop(p, inputs, fn=None):
    """inputs: catalog names.  With remap the function's own argument names
    differ from the catalog's."""
    args = [f"a{i}" for i in range(len(inputs))] if p["remap"] else list(inputs)
    spec = {"ins": args, "outs": p["outs"], "short": p["short"]}
    f = hand.Func(spec)
    kw = dict(kwargs=args, give_args_in_h_units=p["exact"], function_return_in_h_units=p["ret_h"])
    n = len(p["outs"])
    units = [f"u{i}" for i in range(n)]
    own = [f"own{i}" for i in range(n)] if p["rename"] else list(p["names"])
    if n == 1:
        pr = Prop(own[0], f, units=units[0], h_dependence=p["deps"][0], **kw)
    else:
        pr = MultiProp(own, f, units=units, h_dependence=list(p["deps"]), **kw)
    remap = dict(zip(args, inputs)) if p["remap"] else {}
    return pr, spec, units, remap, f


class Model:
    def __init__(self, cat, h):
        self.disk = {k: (v, hand.STORED[k][1], hand.STORED[k][2], False) for k, v in cat.items()}
        self.mem = {}
        self.h = h
        self.n = len(cat["mass"])
        self.active = np.ones(self.n, bool)

    def names(self):
        return sorted(set(self.disk) | set(self.mem))

    def get(self, name):
        return self.mem.get(name) or self.disk[name]

    def value(self, name, all_, in_h):
        v, _, dep, _ = self.get(name)
        v = v if all_ else v[self.active]
        return v if in_h or dep == 0 else v * self.h ** dep


def same(t, got, want, exact, what):
    got = np.asarray(got)
    t.check(got.ndim == 1, f"{what}: {got.ndim} dimensions")
    if exact:
        t.check(got.dtype.kind == want.dtype.kind, f"{what}: type {got.dtype}, expected {want.dtype}")
        t.close(got, want, what, rtol=0)
    else:
        s = float(np.nanmax(np.abs(want), initial=1.0)) if want.dtype.kind == "f" else 1.0
        t.close(got, want, what, rtol=3e-6, atol=1e-6 * s)


def verify(t, hd, m, h_default, what, path, group, file=True):
    names = m.names()
    for set_, want in (("any", names), ("loaded", sorted(m.mem)), ("saved", sorted(m.disk))):
        got = hd.extract_keys(set_)
        t.check(sorted(got) == want, f"{what}: properties '{set_}' listed as {sorted(got)}, expected {want}")
        got.append("intruder")
        t.check("intruder" not in hd.extract_keys(set_), f"{what}: the list of '{set_}' properties can be changed from outside")
    gen = set(hd.extract_keys("generated"))
    t.check(gen <= set(names), f"{what}: {sorted(gen - set(names))} listed as generated but cannot be returned")
    lost = set(m.mem) - set(m.disk) - gen
    t.check(not lost, f"{what}: {sorted(lost)} only in memory but not listed as generated")
    for k in NEW + OPT + ["mass", "intruder"]:
        t.check(bool(hd.has_property(k)) == (k in names), f"{what}: has_property({k!r})")
        t.check(bool(hd.has_loaded(k)) == (k in m.mem), f"{what}: has_loaded({k!r})")
    t.check(hd.nhalos_all == m.n and hd.nhalos_active == int(m.active.sum()), f"{what}: {hd.nhalos_active}/{hd.nhalos_all} objects, expected {m.active.sum()}/{m.n}")
    for k in names:
        v, unit, dep, approx = m.get(k)
        t.check(hd.properties_units[k] == unit, f"{what}: unit of {k!r} is {hd.properties_units[k]!r}, expected {unit!r}")
        t.check(hd.properties_h_dependence[k] == dep, f"{what}: h dependence of {k!r} is {hd.properties_h_dependence[k]!r}, expected {dep!r}")
        inexact = approx and v.dtype.kind == "f"
        same(t, hd.return_property(k, use_all_inds=True, in_h_units=True), v, not inexact, f"{what}: stored values of {k!r}")
        same(t, hd.return_property(k), m.value(k, False, h_default), not inexact and (h_default or dep == 0), f"{what}: values of {k!r}")
    if not file:
        return
    with h5py.File(path, "r") as f:
        g = f[group]
        t.check(sorted(x for x in g if x != "mass_cuts") == sorted(m.disk), f"{what}: the file holds {sorted(g)}, expected {sorted(m.disk)}")
        for k, (v, unit, dep, approx) in m.disk.items():
            inexact = approx and v.dtype.kind == "f"
            t.check(g[k].dtype.kind == v.dtype.kind or v.dtype.kind == "b", f"{what}: {k!r} has type {g[k].dtype} on disk, expected {v.dtype}")
            t.close(np.asarray(g[k][:]), v, f"{what}: {k!r} on disk", rtol=3e-6 if inexact else 0, atol=1e-6 * float(np.nanmax(np.abs(v), initial=1.0)) if inexact else 0)
            t.check(g[k].attrs["units"] == unit and g[k].attrs["h dependence"] == dep, f"{what}: unit or h dependence of {k!r} on disk")
        t.check("mass_cuts" in g, f"{what}: the mass index is gone from the file")


def model_make(m, p, inputs, spec, sel, h):
    """What the property's function has to give: list of stored arrays, or None
    if the result has the wrong length."""
    kw = {a: m.value(nm, True, p["exact"])[sel] for a, nm in zip(spec["ins"], inputs)}
    if p["extra"] is not None:
        kw["extra"] = p["extra"]
    v = hand.evaluate(spec, kw)
    v = [v] if len(p["outs"]) == 1 else v
    out = []
    for x, dep in zip(v, p["deps"]):
        if len(x) != int(sel.sum()):
            return None
        if not p["ret_h"] and dep != 0:
            x = x / h ** dep
        if sel.all():
            full = x.copy()
        else:
            full = np.full(len(sel), np.nan, dtype=np.result_type(x.dtype, np.float32))
            full[sel] = x
        out.append(full)
    return out


def castable(v, dtype):
    return v if dtype is None else v.astype(dtype)


def choose(pool, o):
    """The names an operation acts on: mostly existing candidates."""
    pool = sorted(pool)
    first = o["names"][0]
    if pool and o["pick"] < 16:
        first = pool[o["pick"] % len(pool)]
    rest = [x for x in o["names"][1:] if x in pool and x != first]
    return [first] + (rest if first in pool else [])


def history(case, t):
    h = case["h"]
    cat = hand.catalog(case["seed"], case["n"], ["mass"] + case["stored"])
    path = os.path.join(t.scratch, "data.hdf5")
    with h5py.File(path, "w") as f:
        f.attrs["cosmo_h"] = h
        hand.write_group(f, "Snapshot 3", cat)
        hand.write_group(f, "Snapshot 4", cat)
    cosmo = hand.cosmology(h)

    def open_(in_h):
        return SnapHandler(path, 3, 1.0, cosmo, 50.0, in_h_units=in_h)
    m = Model(cat, h)
    in_h = case["in_h"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        hd = open_(in_h)
        verify(t, hd, m, in_h, "after opening", path, "Snapshot 3")
        done = 0
        for i, o in enumerate(case["ops"]):
            op = o["op"]
            what = f"after step {i} ({op})"
            if op == "make":
                p = o["p"]
                pool = [k for k in m.names() if k != "mass" or True]
                inputs = []
                for q in p["ins"]:
                    k = pool[q % len(pool)]
                    if k not in inputs:
                        inputs.append(k)
                pr, spec, units, remap, f = build_prop(p, inputs)
                sel = np.ones(m.n, bool) if o["all"] else m.active
                ns = int(sel.sum())
                if p["short"] is not None and ns in (0, 2):
                    p = dict(p, short=None)
                    spec["short"] = None
                clash = [x for x in p["names"] if x in m.names()]
                owdisk = o["overwrite"] or (o["owdisk"] and not any(x in m.disk for x in p["names"]))
                write = o["write"]
                kw = dict(rename=(p["names"] if len(p["names"]) > 1 or p["extra"] is None else p["names"][0]) if p["rename"] else None, overwrite=o["overwrite"], use_all_inds=o["all"],
                          write_to_disk=write, overwrite_to_disk=owdisk, dtype_to_disk=o["dtype"] if write else None, unload_to_disk=o["unload"])
                if remap:
                    kw["kw_remap"] = dict(remap)
                if p["extra"] is not None:
                    kw["other_kws"] = {"extra": p["extra"]}
                vals = model_make(m, p, inputs, spec, sel, h)
                src_approx = not p["exact"] or any(m.get(x)[3] for x in inputs)
                bad = (clash and not o["overwrite"]) or (write and not o["all"] and not m.active.all()) or vals is None
                if bad:
                    t.label("make refused")
                    t.raises(lambda: hd.make_property(pr, **kw), f"{what}: make_property({p['names']}) with existing {clash}, overwrite={o['overwrite']}, restricted={not sel.all()}, function result {'wrong' if vals is None else 'right'}")
                else:
                    hd.make_property(pr, **kw)
                    t.label("made", "overwrote" if clash else "new")
                    done += 1
                    
                    for nm, v, u, dep in zip(p["names"], vals, units, p["deps"]):
                        m.mem[nm] = (v, u, dep, src_approx)
                        if write:
                            m.disk[nm] = (castable(v, o["dtype"]), u, dep, src_approx)
                            if o["unload"]:
                                del m.mem[nm]
                    if src_approx and any(v.dtype.kind != "f" for v in vals):
                        # floor/threshold of inexact input: take the code's own result as the value
                        for nm, made in zip(p["names"], vals):
                            t.label("pinned")
                            v = np.asarray(hd.return_property(nm, use_all_inds=True, in_h_units=True))
                            for d in (m.mem, m.disk):
                                if nm in d and (d is m.mem or write):
                                    w = d[nm]
                                    if made.dtype.kind != "f":
                                        t.check(w[0].shape == v.shape, f"{what}: shape of {nm!r}")
                                        d[nm] = (v.astype(w[0].dtype), w[1], w[2], True)
            elif op == "write":
                names = choose(m.mem, o)
                bad = [x for x in names if x not in m.mem or (x in m.disk and not o["overwrite"])]
                if bad:
                    names = [bad[0]]
                    t.label("write refused")
                    t.raises(lambda: hd.write_property(*names, overwrite=o["overwrite"], dtype=o["dtype"]), f"{what}: write_property({names}, overwrite={o['overwrite']})")
                else:
                    hd.write_property(*names, overwrite=o["overwrite"], dtype=o["dtype"])
                    t.label("written")
                    for x in names:
                        v, u, dep, a = m.mem[x]
                        m.disk[x] = (castable(v, o["dtype"]), u, dep, a)
            elif op == "load":
                names = choose(m.disk, o)
                bad = [x for x in names if x not in m.disk]
                if bad:
                    t.raises(lambda: hd.load_property(bad[0]), f"{what}: loading {bad[0]!r}, which is not in the file")
                else:
                    hd.load_property(*names)
                    for x in names:
                        m.mem[x] = m.disk[x]
            elif op == "unload":
                names = choose(m.mem, o)
                hd.unload_property(*names)
                for x in names:
                    if m.mem.pop(x, None) and x not in m.disk:
                        t.label("forgotten")
            elif op == "delete":
                names = choose([x for x in m.disk if x != "mass"], o)
                bad = [x for x in names if x not in m.disk]
                if bad:
                    t.raises(lambda: hd.delete_property(bad[0]), f"{what}: deleting {bad[0]!r}, which is not in the file")
                else:
                    hd.delete_property(*names)
                    t.label("deleted")
                    for x in names:
                        m.disk.pop(x)
                        m.mem.pop(x, None)
            elif op == "reopen":
                in_h = o["h"]
                hd = open_(in_h)
                m.mem = {}
                m.active = np.ones(m.n, bool)
                t.label("reopened after changes" if done else "reopened")
            elif op == "range":
                mass = m.get("mass")[0]
                if o["k"] is None or m.n == 0:
                    hd.set_property_range()
                    m.active = np.ones(m.n, bool)
                else:
                    x = float(mass[o["k"] % m.n])
                    if o["upper"]:
                        hd.set_property_range("mass", pmax=x, in_h_units=True)
                        m.active = mass <= x
                    else:
                        hd.set_property_range("mass", x, in_h_units=True)
                        m.active = mass >= x
                    if not m.active.all():
                        t.label("restricted")
            elif op == "bad":
                kind = o["kind"]
                if kind == "set":
                    t.raises(lambda: hd.extract_keys("bogus"), f"{what}: listing an unknown set")
                elif kind == "rename":
                    pr = Prop("nn", lambda mass: mass, ["mass"])
                    t.raises(lambda: hd.make_property(pr, rename=["x1", "x2"]), f"{what}: two names for one property")
                else:
                    fn = {"return": hd.return_property, "load": hd.load_property, "write": hd.write_property, "delete": hd.delete_property}[kind]
                    t.raises(lambda: fn("no such"), f"{what}: {kind} of an unknown property")
            verify(t, hd, m, in_h, what, path, "Snapshot 3", op in ("make", "write", "delete"))
        fresh = open_(not in_h)
        m.mem = {}
        m.active = np.ones(m.n, bool)
        verify(t, fresh, m, not in_h, "after reopening at the end", path, "Snapshot 3")
        other = SnapHandler(path, 4, 1.0, cosmo, 50.0, in_h_units=True)
        verify(t, other, Model(cat, h), True, "another snapshot of the same file", path, "Snapshot 4")
    t.nontrivial(done >= 1 and case["n"] > 1)


# ------------------------------------------------------------------ all snapshots at once
@st.composite
def simcases(draw):
    ops = []
    for _ in range(draw(st.integers(3, 10))):
        op = draw(st.sampled_from(["make", "make", "make", "make", "delete", "delete", "reopen", "range", "stat"]))
        o = {"op": op}
        if op == "make":
            o.update(p=dict(draw(propdefs()), short=None), overwrite=draw(st.integers(0, 3)) > 0, all=draw(st.booleans()), write=draw(st.booleans()), dtype=draw(st.sampled_from([None, None, "f4"])))
        elif op == "delete":
            o.update(names=[draw(NAME)], pick=draw(st.integers(0, 20)))
        elif op == "reopen":
            o.update(h=draw(st.booleans()), init=draw(st.booleans()))
        elif op == "range":
            o.update(k=draw(st.one_of(st.none(), st.integers(0, 12))))
        ops.append(o)
    return {"ns": [draw(st.integers(0, 4)) for _ in range(draw(st.integers(1, 3)))], "seed": draw(SEED), "h": draw(st.sampled_from(hand.HS)),
            "in_h": draw(st.booleans()), "init": draw(st.booleans()), "stored": sorted(draw(st.sets(st.sampled_from(OPT), min_size=1))), "ops": ops}


def simulation(case, t):
    h = case["h"]
    cosmo = hand.cosmology(h)
    idx = [3 + 2 * i for i in range(len(case["ns"]))]
    table = hand.snap_table(cosmo, idx, [0.5 * (len(idx) - i) for i in range(len(idx))])
    cats = {i: hand.catalog(case["seed"] + i, n, ["mass"] + case["stored"]) for i, n in zip(idx, case["ns"])}
    folder = os.path.join(t.scratch, "sim")
    path = hand.write_sim(folder, h, 0.3, 0.05, 50.0, table, cats)
    hand.register(folder)
    ms = {i: Model(cats[i], h) for i in idx}
    user = set()
    in_h, init = case["in_h"], case["init"]
    allm = np.concatenate([c["mass"] for c in cats.values()] or [[]])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = SimHandler("_testbox", init_snaps=init, in_h_units=in_h)
        done = 0
        for j, o in enumerate(case["ops"]):
            op = o["op"]
            what = f"after step {j} ({op}, init_snaps={init})"
            known = ms[idx[0]].names()
            if op == "make":
                p = o["p"]
                inputs = []
                for q in p["ins"]:
                    k = known[q % len(known)]
                    if k not in inputs:
                        inputs.append(k)
                inexact = not p["exact"] or any(ms[idx[0]].get(x)[3] for x in inputs)
                if inexact:
                    p = dict(p, outs=[[k, "f8" if kind in ("int", "bool") else kind] for k, kind in p["outs"]])
                pr, spec, units, remap, f = build_prop(p, inputs)
                write = o["write"]
                clash = [x for x in p["names"] if x in known]
                disk = ms[idx[0]].disk
                bad = (clash and not o["overwrite"]) or (not init and not write) or (write and any(x in disk and x not in user for x in p["names"]))
                kw = dict(rename=p["names"] if p["rename"] else None, overwrite=o["overwrite"], use_all_inds=o["all"], write=write, writedtype=o["dtype"] if write else None)
                if remap:
                    kw["kw_remap"] = dict(remap)
                if p["extra"] is not None:
                    kw["other_kws"] = {"extra": p["extra"]}
                if bad:
                    t.label("refused")
                    t.raises(lambda: sim.make_property(pr, **kw), f"{what}: make_property({p['names']}) with existing {clash}, overwrite={o['overwrite']}, write={write}")
                else:
                    sim.make_property(pr, **kw)
                    done += 1
                    t.label("made, " + ("written" if write else "in memory"))
                    for i, m in ms.items():
                        sel = np.ones(m.n, bool) if o["all"] else m.active
                        vals = model_make(m, p, inputs, spec, sel, h)
                        for nm, v, u, dep in zip(p["names"], vals, units, p["deps"]):
                            if write:
                                m.disk[nm] = (castable(v, o["dtype"]), u, dep, inexact)
                                m.mem.pop(nm, None)
                                user.add(nm)
                            else:
                                m.mem[nm] = (v, u, dep, inexact)
            elif op == "delete":
                disk = ms[idx[0]].disk
                name = choose([x for x in disk if x != "mass"], o)[0]
                if name not in disk or name not in user:
                    t.raises(lambda: sim.delete_property(name), f"{what}: deleting {name!r}, which {'was not added by the user' if name in disk else 'is not in the file'}")
                else:
                    sim.delete_property(name)
                    t.label("deleted")
                    for m in ms.values():
                        m.disk.pop(name)
                        m.mem.pop(name, None)
                    user.discard(name)
            elif op == "reopen":
                in_h, init = o["h"], o["init"]
                sim = SimHandler("_testbox", init_snaps=init, in_h_units=in_h)
                for m in ms.values():
                    m.mem = {}
                    m.active = np.ones(m.n, bool)
            elif op == "range":
                if not init:
                    t.raises(lambda: sim.set_property_range("mass", 1.0), f"{what}: restricting snapshots that are not initialised")
                else:
                    if o["k"] is None or len(allm) == 0:
                        sim.set_property_range()
                        for m in ms.values():
                            m.active = np.ones(m.n, bool)
                    else:
                        x = float(allm[o["k"] % len(allm)])
                        sim.set_property_range("mass", pmin=x, in_h_units=True)
                        for m in ms.values():
                            m.active = m.get("mass")[0] >= x
            elif op == "stat":
                vals, zs = sim.snap_stat(lambda mass: np.array(mass), ["mass"], give_args_in_h_units=True)
                t.check(len(vals) == len(idx), f"{what}: {len(vals)} results for {len(idx)} snapshots")
                for v, i in zip(vals, idx):
                    t.close(v, ms[i].value("mass", False, True), f"{what}: masses handed to the statistic of snapshot {i}", rtol=0)
            for i in idx:
                g = f"Snapshot {i}"
                verify(t, sim.get_snap(i), ms[i], in_h, f"{what}, snapshot {i}", path, g, op in ("make", "delete"))
        sim = SimHandler("_testbox", in_h_units=True)
        t.check(sorted(sim.extract_snap_keys()) == sorted(ms[idx[0]].disk), f"fields of the reopened simulation {sorted(sim.extract_snap_keys())}")
        for k in sim.extract_snap_keys():
            t.check(sim.key_units[k] == ms[idx[0]].disk[k][1] and sim.key_h_dependence[k] == ms[idx[0]].disk[k][2], f"unit of field {k!r} of the reopened simulation")
    t.nontrivial(done >= 1 and sum(case["ns"]) > 1)


CHECKS = [Check("history", cases(), history, quick=1200, thorough=24000), Check("simulation", simcases(), simulation, quick=320, thorough=8000)]
