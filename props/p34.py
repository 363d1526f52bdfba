"""P34: operations on stored data that fail partway."""
import os
import shutil
import warnings
import h5py
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED
from vlib import cones, hand
from vlib.faults import Faults, KINDS, differ, tree
from props import p18, p25

KIND = st.sampled_from(sorted(KINDS))
AT = st.integers(0, 10**6)


def quietly(fn):
    def g(case, t):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(case, t)
    return g


# ------------------------------------------------------------ formatting
@st.composite
def formatcases(draw):
    n = draw(st.integers(1, 3))

    def op():
        return {"snaps": draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=3))), "remake": draw(st.integers(0, 3)) == 0, "overwrite": draw(st.booleans()), "basic": draw(st.integers(0, 3)) == 0,
                "clean": draw(st.integers(0, 4)) == 0}

    return {"raw": [[draw(SEED), draw(st.sampled_from([0, 1, 2, 5, 9])), draw(st.booleans())] for _ in range(n)], "h": draw(st.sampled_from(hand.HS)), "mass": draw(st.sampled_from(["f", "f8"])),
            "before": [op() for _ in range(draw(st.integers(0, 2)))], "op": op(), "new": [draw(SEED) if draw(st.booleans()) else None for _ in range(n)], "at": draw(AT), "kind": draw(KIND), "times": draw(st.integers(1, 2))}


class Faulty(p18.Box):
    fault = None

    def _loader(self, *a, **k):
        if self.fault is not None:
            self.fault.point("loader")
        return super()._loader(*a, **k)


@quietly
def formatting(case, t):
    n, h = len(case["raw"]), case["h"]
    raw = {i: p18.raw_snapshot(s, k, ties) for i, (s, k, ties) in enumerate(case["raw"])}
    table = hand.snap_table(hand.cosmology(h), list(range(n)), [0.3 * (n - i) for i in range(n)])
    a, b = os.path.join(t.scratch, "a"), os.path.join(t.scratch, "b")

    def have(d):
        return [i for i in range(n) if os.path.exists(os.path.join(d, "raw", f"s{i}.npz"))]

    def go(d, o, fault=None, **k):
        o = {**o, **k}
        snaps = list(range(n)) if o["snaps"] is None else o["snaps"]
        box = Faulty(d, snaps=[i for i in snaps if i in have(d)], mass_dtype=case["mass"], n=n)
        box.fault = fault
        box.format(remake=o["remake"], overwrite=o["overwrite"], basic=o["basic"], realtime_clean_raw=o["clean"], realtime_clean_raw_check=False)
    os.makedirs(os.path.join(a, "raw"))
    for i in raw:
        np.savez(os.path.join(a, "raw", f"s{i}.npz"), **raw[i])
    np.save(os.path.join(a, "meta.npy"), {"name": "_testbox", "number_snaps": n, "cosmo_name": "x", "cosmo_omega_matter": 0.3, "cosmo_omega_lambda": 0.7, "cosmo_omega_baryon": 0.05, "cosmo_h": h, "box_edge": 50.0})
    np.save(os.path.join(a, "meta_snaps.npy"), table)
    with p18.Contained(t.scratch, []):
        for o in case["before"]:
            go(a, {**o, "clean": False})
        for i, s in enumerate(case["new"]):
            if s is not None and case["before"]:  # another version of the raw data
                raw[i] = p18.raw_snapshot(s, 4, False)
                np.savez(os.path.join(a, "raw", f"s{i}.npz"), **raw[i])
        o = case["op"]
        file = os.path.join(a, "data.hdf5")
        before = tree(file)
        shutil.copytree(a, b)
        f = Faults()
        with f:
            go(b, o, f)
        after = tree(os.path.join(b, "data.hdf5"))
        what = f"formatting {o} after {case['before']}, {case['kind']}"

        def snap(x, i):
            return {k: v for k, v in x.items() if k.split("/")[0] == f"Snapshot {i}"}
        redo = o
        for _ in range(case["times"]):
            g = Faults(1 + case["at"] % f.count, case["kind"])
            if g.run(t, lambda: go(a, redo, g), what):
                t.label("completed")
                break
            t.label(g.where)
            w = f"{what} at step {g.at} of {f.count} ({g.where})"
            now = tree(file)
            left = have(a)
            for i in range(n):
                s = snap(now, i)
                if s:
                    d0, d1 = differ(s, snap(before, i)), differ(s, snap(after, i))
                    t.check(not d0 or not d1, f"{w}: snapshot {i} is there, but is not complete: {(d0 if len(d0) < len(d1) else d1)[:4]}")
                if i not in left and have(b) != list(range(n)):
                    t.check(s and not differ(s, snap(after, i)), f"{w}: raw data of snapshot {i} are gone, but it is not formatted")
            if o["clean"] and len(left) < n:
                redo = {**o, "remake": False}
            if before and not o["remake"] and not any(k.startswith("Snapshot") for k in now):
                # no snapshot is left: documented to act like remaking
                shutil.rmtree(b)
                shutil.copytree(a, b)
                go(b, {**redo, "remake": True})
                after = tree(os.path.join(b, "data.hdf5"))
                t.label("none left")
        go(a, redo)
    now = tree(file)
    bad = differ(now, after)
    t.check(not bad, f"{what} at step {g.at} of {f.count} ({getattr(g, 'where', '')}), repeated: differs from uninterrupted formatting: {bad[:5]}")
    t.check(have(a) == have(b), f"{what}, repeated: raw data left of {have(a)}, expected {have(b)}")
    t.nontrivial(g.at > 3 and any(len(raw[i]["M"]) > 1 for i in raw))


# ------------------------------------------------------------ light cones
@st.composite
def conecases(draw):
    case = draw(st.one_of(cones.cone_cases(), cones.sphere_cases()))
    case["s"]["n"] = draw(st.sampled_from([0, 30, 1000, 2500]))
    case["n"] = draw(st.integers(1, 2))
    case.update(old=draw(st.booleans()), at=draw(AT), kind=draw(KIND), late=draw(st.booleans()))
    return case


def files(sim, name, n):
    return [os.path.join(sim.lcfolder, name, f"lc_{i:04d}.hdf5") for i in range(n)]


@quietly
def building(case, t):
    from simim.lightcone.lchandler import LCHandler
    sim = cones.Sim(case["s"], t.scratch)
    f = Faults()
    with f:
        cones.make_any(case, sim, "clean")
    want = [cones.read(p) for p in files(sim, "clean", case["n"])]
    old = []
    if case["old"]:
        cones.make_any(case, sim, "lc", rng=case["rng"] + 1)
        old = [tree(p) for p in files(sim, "lc", case["n"])]
    k = case["at"] % f.count
    g = Faults(1 + (f.count - 1 - k % min(f.count, 25) if case["late"] else k), case["kind"])
    what = f"building {case['n']} light cones ({case['mode']}), {case['kind']} at step {g.at} of {f.count}"
    if g.run(t, lambda: cones.make_any(case, sim, "lc", overwrite=case["old"]), what):
        t.label("completed")
    else:
        t.label(g.where)
        what += f" ({g.where})"
        for i, p in enumerate(files(sim, "lc", case["n"])):
            if not os.path.exists(p):
                continue
            now = tree(p)
            if old and not differ(now, old[i]):
                continue  # not begun yet
            marked = bool(np.any(now["/"][1].get("status_basic", False)))
            try:
                hd = LCHandler(case["s"]["sim"], "lc", i, in_h_units=True)
                got = {k: hd.return_property(k) for k in want[i]["full"]}
                opens = True
            except Exception:
                opens = False
            if marked or opens:
                t.check(opens, f"{what}: cone {i} is marked as built but cannot be read")
                for k in got:
                    t.check(np.array_equal(got[k], want[i]["full"][k]), f"{what}: cone {i} can be read, but its {k} is not complete: {len(got[k])} halos of {len(want[i]['full'][k])}")
                t.label("some done")
            if marked:
                try:
                    p25.same(t, cones.read(p), want[i], f"{what}: cone {i}, marked as built")
                except KeyError as e:
                    t.fail(f"{what}: cone {i} is marked as built, but lacks {e}")
    cones.make_any(case, sim, "lc", overwrite=True)
    for i, p in enumerate(files(sim, "lc", case["n"])):
        p25.same(t, cones.read(p), want[i], f"{what}: cone {i} built again")
    t.nontrivial(sum(len(w["index"]) for w in want) > 1 and g.hit is not None)


@st.composite
def extracases(draw):
    case = draw(st.one_of(cones.cone_cases(), cones.cone_cases(), cones.sphere_cases()))
    case["s"]["n"] = draw(st.sampled_from([0, 30, 1000, 2500]))
    case["n"] = draw(st.integers(1, 2))

    def op():
        return ["scalar", draw(st.lists(st.sampled_from(["halo_id", "stars", "tag", "rate", "masscheck"]), min_size=1, max_size=3, unique=True))] if draw(st.booleans()) else ["vector", draw(st.lists(st.sampled_from(["v", "spin"]), min_size=1, max_size=2, unique=True))]
    case.update(before=op() if draw(st.booleans()) else None, op=op(), at=draw(AT), kind=draw(KIND), times=draw(st.integers(1, 2)))
    return case


@quietly
def extras(case, t):
    from simim.lightcone.lchandler import LCHandler
    sim = cones.Sim(case["s"], t.scratch)
    m1, _ = cones.make_any(case, sim, "clean")
    m2, _ = cones.make_any(case, sim, "lc")

    def add(m, op):
        (m.add_properties if op[0] == "scalar" else m.add_pos_properties)(*op[1])
    for m in (m1, m2):
        if case["before"]:
            add(m, case["before"])
    base = [tree(p) for p in files(sim, "lc", case["n"])]
    f = Faults()
    with f:
        add(m1, case["op"])
    want = [tree(p) for p in files(sim, "clean", case["n"])]
    what = f"adding {case['op'][1]} to {case['n']} light cones ({case['mode']}) after {case['before']}, {case['kind']}"
    for _ in range(case["times"]):
        g = Faults(1 + case["at"] % f.count, case["kind"])
        if g.run(t, lambda: add(m2, case["op"]), what):
            t.label("completed")
            break
        t.label(g.where)
        w = f"{what} at step {g.at} of {f.count} ({g.where})"
        for i, p in enumerate(files(sim, "lc", case["n"])):
            hd = LCHandler(case["s"]["sim"], "lc", i, in_h_units=True)
            for k in hd.properties_all:
                key = f"Lightcone Full/{k}"
                t.check(key in want[i] and np.array_equal(hd.return_property(k), want[i][key][0]), f"{w}: cone {i} has a property {k!r}, which is not complete")
            for k, v in base[i].items():
                if k != "/":
                    t.check(not differ({k: v}, {k: tree(p).get(k, ())} if k in tree(p) else {}), f"{w}: {k} of cone {i} changed")
            done = bool(np.any(tree(p)["/"][1]["status_extra_completed"]))
            t.check(not done or not differ(tree(p), want[i], SKIP) or not differ(tree(p), base[i], SKIP), f"{w}: cone {i} marked as completed")
    add(m2, case["op"])
    for i, p in enumerate(files(sim, "lc", case["n"])):
        bad = differ(tree(p), want[i], SKIP)
        t.check(not bad, f"{what} at step {g.at} of {f.count} ({getattr(g, 'where', '')}), repeated: cone {i} differs from uninterrupted: {bad[:4]}")
    t.nontrivial(any(len(w["Indexing/sim_indices"][0]) > 1 for w in want) and g.hit is not None)


SKIP = ("created", "finished")


# ------------------------------------------------------------ properties in storage

@st.composite
def storecases(draw):
    n = draw(st.integers(1, 3))

    def op():
        return [draw(st.sampled_from(["make", "make", "write", "delete", "all", "all", "delete all"])), draw(st.sampled_from(["a", "b", "pair"])), draw(st.integers(0, n - 1)), draw(st.sampled_from([None, "f4", "f8"])), draw(st.integers(1, 3))]
    return {"n": [draw(st.integers(0, 6)) for _ in range(n)], "seed": draw(SEED), "h": draw(st.sampled_from(hand.HS)), "before": [op() for _ in range(draw(st.integers(0, 3)))], "op": op(), "at": draw(AT), "kind": draw(KIND), "same": draw(st.booleans()), "times": draw(st.integers(1, 2))}


@quietly
def storage(case, t):
    from simim.siminterface import SimHandler
    from simim.galprops.galprops import Prop, MultiProp
    k = len(case["n"])
    table = hand.snap_table(hand.cosmology(case["h"]), list(range(k)), [0.3 * (k - i) for i in range(k)])
    cats = {i: hand.catalog(case["seed"] + i, c, ["mass", "pos_x", "pos_y", "pos_z", "vel", "tag"]) for i, c in enumerate(case["n"])}

    def prop(which, a, fault):
        w = fault.wrap if fault is not None else (lambda fn: fn)
        if which == "pair":
            return MultiProp(["p1", "p2"], w(lambda vel: (vel * a, vel + a)), ["vel"], ["km/s", "None"], [0, -1])
        return Prop(which, w(lambda mass, vel: vel * a + 1e-10 * mass), ["mass", "vel"], "Msun/h" if which == "b" else "None", -1 if which == "b" else 0)

    def names(which):
        return ["p1", "p2"] if which == "pair" else [which]

    def go(folder, sn, o, fault=None, again=False):
        """One operation by handlers of snapshots in sn (made when missing)."""
        kind, which, i, dt, a = o
        hand.register(folder)
        if kind in ("all", "delete all"):
            sim = SimHandler("_testbox", in_h_units=True)
            file = tree(os.path.join(folder, "data.hdf5"))
            if kind == "all":
                if "p" not in sn:
                    sn["p"] = prop(which, a, fault)
                sim.make_property(prop(which, a, fault), overwrite=True, write=True, writedtype=dt)
            else:
                there = [x for x in names(which) if all(f"Snapshot {j}/{x}" in file for j in cats)]
                if again and "deleting" in sn:  # what is left
                    for j in cats:
                        left = [x for x in names(which) if f"Snapshot {j}/{x}" in file and x in sn["deleting"]]
                        if left:
                            sim.get_snap(j).delete_property(*left)
                else:
                    sn["deleting"] = there
                    if there:
                        sim.delete_property(*there)
            return
        if sn.get(i) is None:
            sn[i] = SimHandler("_testbox", in_h_units=True).get_snap(i)
        hd = sn[i]
        if kind == "make":
            hd.make_property(prop(which, a, fault), overwrite=True, write_to_disk=True, overwrite_to_disk=True, dtype_to_disk=dt)
        elif kind == "write":
            there = [x for x in names(which) if hd.has_property(x)]
            for x in there:
                if not hd.has_loaded(x):
                    hd.load_property(x)
            hd.write_property(*there, overwrite=True, dtype=dt)
        else:
            file = tree(os.path.join(folder, "data.hdf5"))
            there = [x for x in names(which) if f"Snapshot {i}/{x}" in file]
            if again:
                there = [x for x in there if x in hd.properties_saved]
            hd.delete_property(*there)
    a, b = os.path.join(t.scratch, "a"), os.path.join(t.scratch, "b")
    for d in (a, b):
        hand.write_sim(d, case["h"], 0.3, 0.05, 50.0, table, cats)
    sna, snb = {}, {}
    for o in case["before"]:
        for d, sn in ((a, sna), (b, snb)):
            if not case["same"] or o[0] in ("all", "delete all"):
                sn.clear()
            go(d, sn, o)
    before = tree(os.path.join(a, "data.hdf5"))
    if not case["same"] or case["op"][0] in ("all", "delete all"):
        sna, snb = {}, {}
    f = Faults()
    with f:
        go(b, snb, case["op"], f)
    after = tree(os.path.join(b, "data.hdf5"))
    if not f.count:
        return
    what = f"{case['op']} after {case['before']}, {case['kind']}"
    again = False
    mine = {f"Snapshot {j}/{x}" for x in names(case["op"][1]) for j in cats}
    for _ in range(case["times"]):
        g = Faults(1 + case["at"] % f.count, case["kind"])
        if g.run(t, lambda: go(a, sna, case["op"], g, again), what):
            t.label("completed")
            break
        again = True
        t.label(case["op"][0], g.where)
        w = f"{what} at step {g.at} of {f.count} ({g.where})"
        now = tree(os.path.join(a, "data.hdf5"))
        for key in sorted(set(now) | set(before)):
            if key not in mine:
                t.check(key in now and key in before and not differ({key: now[key]}, {key: before[key]}), f"{w}: {key} changed")
            elif key in now:
                ok = [x for x in (before, after) if key in x and not differ({key: now[key]}, {key: x[key]})]
                t.check(ok, f"{w}: {key} is neither what it was nor what it is to be: {now[key]}, was {before.get(key)}, to be {after.get(key)}")
        hand.register(a)
        sim = SimHandler("_testbox", in_h_units=True)
        for i in cats:
            hd = sim.get_snap(i)
            for x in hd.properties_all:
                v = hd.return_property(x)
                t.close(v, now[f"Snapshot {i}/{x}"][0], f"{w}: {x} of snapshot {i} read again", rtol=0)
        for i, hd in sna.items():
            if isinstance(i, int):
                for x in hd.properties_saved:
                    t.check(f"Snapshot {i}/{x}" in now, f"{w}: the handler lists {x!r} as saved, which is not in the file")
                for x in ("mass", "vel", "tag"):
                    t.close(hd.return_property(x), cats[i][x], f"{w}: {x} by the same handler", rtol=0)
    go(a, sna, case["op"], None, again)
    now = tree(os.path.join(a, "data.hdf5"))
    bad = differ(now, after)
    t.check(not bad, f"{what} at step {g.at} of {f.count} ({getattr(g, 'where', '')}), repeated: differs from uninterrupted: {bad[:5]}")
    t.nontrivial(g.hit is not None and max(case["n"]) > 1)


CHECKS = [Check("formatting", formatcases(), formatting, quick=300, thorough=8000), Check("building", conecases(), building, quick=120, thorough=4000), Check("extras", extracases(), extras, quick=120, thorough=4000), Check("storage", storecases(), storage, quick=400, thorough=10000)]
