"""P24: light spheres against brute force over all periodic images."""
import os
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib import cones


def judge(t, sim, lc, geo, case, what):
    a, b, _, _, use = geo
    at = lc["attrs"]
    B = sim.box
    flips, start = np.array(at["box flips"]), np.array(at["start position"])
    t.check(set(np.abs(flips)) <= {1} and np.all(start >= 0) and np.all(start <= B), f"{what}: flips {flips}, start {start}")
    f = lc["full"]
    rows = len(f["mass"])
    for k in ("pos_x", "pos_y", "pos_z", "ra", "dec", "redshift", "mass"):
        t.check(k in f and len(f[k]) == rows and np.array_equal(f[k], lc["basic"][k]), f"{what}: column {k}")
    t.check(len(lc["index"]) == rows, f"{what}: {len(lc['index'])} parents for {rows} rows")
    dz = [sim.distance(a), sim.distance(b)]
    eps = 1e-6
    want, maybe = set(), set()
    for r in use:
        snap = int(r["index"])
        d0, d1 = max(float(r["distance_min"]), dz[0]), min(float(r["distance_max"]), dz[1])
        if d1 <= d0 - 1e-6:
            continue
        c = sim.cats[snap]
        keep = np.nonzero(c["mass"].astype(float) >= case["mass"])[0]
        p = np.array([c[k][keep].astype(float) for k in ("pos_x", "pos_y", "pos_z")]).T.reshape(len(keep), 3) * flips - start
        g = np.arange(-2, 4)
        nn = np.array(np.meshgrid(g, g, g, indexing="ij")).reshape(3, -1).T
        for n in nn:
            x = p + B * n
            d = np.sqrt((x**2).sum(axis=1))
            # how far inside the requested part of the sky
            side = {"sphere": np.full(len(x), 9.0), "hemisphere": x[:, 2], "quarter": np.minimum(x[:, 2], x[:, 1]), "eighth": x.min(axis=1) if len(x) else np.zeros(0)}[case["mode"]]
            sure = (side > eps) & (d >= d0 + eps) & (d < d1 - eps)
            could = (side > -eps) & (d >= d0 - eps) & (d < d1 + eps)
            for s_, c_, i in zip(sure[could], could[could], keep[could]):
                key = (snap, int(i)) + tuple(int(v) for v in n)
                if s_:
                    want.add(key)
                maybe.add(key)
    pos = np.array([f["pos_x"], f["pos_y"], f["pos_z"]]).T.reshape(rows, 3).astype(float)
    got = []
    for row in range(rows):
        snap, i = int(lc["index"]["snap"][row]), int(lc["index"]["index"][row])
        t.check(snap in sim.cats and 0 <= i < len(sim.cats[snap]["mass"]), f"{what}: row {row} comes from object {i} of snapshot {snap}")
        c = sim.cats[snap]
        p = np.array([c[k][i] for k in ("pos_x", "pos_y", "pos_z")], float) * flips - start
        n = (pos[row] - p) / B
        t.check(np.all(np.abs(n - np.round(n)) * B < 1e-5), f"{what}: row {row} (object {i} of snapshot {snap}) sits at {pos[row]}, which is no periodic image of that object: off by {(n - np.round(n)) * B} Mpc/h")
        got.append((snap, i) + tuple(int(v) for v in np.round(n)))
        t.check(f["mass"][row] == c["mass"][i], f"{what}: row {row} has mass {f['mass'][row]}, its object {c['mass'][i]}")
    seen = set(got)
    t.check(len(seen) == len(got), f"{what}: {len(got) - len(seen)} halos appear more than once")
    for key in sorted(seen - maybe):
        x = pos[got.index(key)]
        t.fail(f"{what}: holds object {key[1]} of snapshot {key[0]} at {x}, distance {np.linalg.norm(x)}; limits {dz}")
    miss = sorted(want - seen)
    t.check(not miss, lambda: f"{what}: {len(miss)} of {len(want)} halos are missing; first: object {miss[0][1]} of snapshot {miss[0][0]}, image {miss[0][2:]}")
    d = np.sqrt((pos**2).sum(axis=1))
    ok = d > 1e-9
    with np.errstate(all="ignore"):
        diff = (f["ra"] - np.arctan2(pos[:, 1], pos[:, 0]) + np.pi) % (2 * np.pi) - np.pi
        t.close(diff[ok], np.zeros(ok.sum()), f"{what}: ra", rtol=0, atol=1e-7)
        t.check(np.all((f["ra"] >= 0) & (f["ra"] <= 2 * np.pi)), f"{what}: ra outside 0 to 2 pi")
        t.close(f["dec"][ok], np.arctan2(pos[:, 2], np.hypot(pos[:, 0], pos[:, 1]))[ok], f"{what}: dec", rtol=0, atol=1e-7)
    if rows:
        t.close(sim.cosmo.comoving_distance(f["redshift"].astype(float)).value * sim.h, d, f"{what}: distance at the recorded redshift", rtol=1e-5, atol=1e-3)
    return rows


def sphere(case, t):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cones.Sim(case["s"], t.scratch)
        m, geo = cones.make_sphere(case, sim)
        rows = 0
        for i in range(case["n"]):
            lc = cones.read(os.path.join(sim.lcfolder, "lc", f"lc_{i:04d}.hdf5"))
            t.check(lc["attrs"]["shape"] == case["mode"], f"shape recorded as {lc['attrs']['shape']}, asked for {case['mode']}")
            rows += judge(t, sim, lc, geo, case, f"light {case['mode']} {i} (z {geo[0]:.4f}-{geo[1]:.4f}, box {sim.box}, {len(geo[4])} snapshots)")
    t.label("rows:" + ("0" if rows == 0 else "1-9" if rows < 10 else "10-99" if rows < 100 else "100+"), case["mode"], "snapshots:" + str(len(geo[4])))
    t.nontrivial(rows > 1)


@st.composite
def edge_cases(draw):
    case = draw(cones.sphere_cases())
    case["s"] = dict(case["s"], n=0)
    case["m"] = draw(st.sampled_from([50, 300, 300, 800]))
    case["n"] = draw(st.sampled_from([1, 1, 3]))
    if case["mass"] == 1e15:
        case["mass"] = 0
    return case


def edges(case, t):
    """The same shells, their halos placed on and around the limits."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cones.Sim(case["s"], t.scratch)
        mass, case["mass"] = case["mass"], 0
        which = case["n"] - 1
        m, geo = cones.make_sphere(case, sim)
        path = os.path.join(sim.lcfolder, "lc", f"lc_{which:04d}.hdf5")
        sim.cats = cones.aimed(sim, geo, cones.read(path)["attrs"], case["mode"], case["s"]["seed"], case["m"])
        sim.write()
        case["mass"] = mass
        m, geo = cones.make_sphere(case, sim, overwrite=True)
        rows = judge(t, sim, cones.read(path), geo, case, f"light {case['mode']} {which} (z {geo[0]:.4f}-{geo[1]:.4f}, box {sim.box}, {len(geo[4])} snapshots, halos near its limits)")
    t.label("rows:" + ("0" if rows == 0 else "1-9" if rows < 10 else "10-99" if rows < 100 else "100+"), case["mode"], "snapshots:" + str(len(geo[4])))
    t.nontrivial(rows > 10)


@st.composite
def fits(draw):
    return {"s": dict(draw(cones.simulations(zmax=(0.08, 0.12, 0.3), boxes=(30.0, 60.0, 100.0))), n=20), "mode": draw(st.sampled_from(cones.SPHERES)), "ratio": draw(st.sampled_from([0.3, 0.9, 0.99, 1.01, 1.1, 1.25, 1.45, 1.9, 2.5]))}


def size(case, t):
    """A shell that does not fit the box would miss or repeat halos: it must be
    refused, and one that does fit accepted."""
    from simim.lightcone import SphereMaker
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cones.Sim(case["s"], t.scratch)
        reach = (sim.box if case["mode"] == "eighth" else sim.box / 2) * case["ratio"]
        z = np.linspace(0, 1.2, 6001)
        b = float(np.interp(reach, sim.cosmo.comoving_distance(z).value * sim.h, z))

        def make():
            return SphereMaker(case["s"]["sim"], "lc", redshift_max=b, mode=case["mode"], overwrite=False)
        # the maker compares Mpc/h with Mpc: shells between 1 and 1/h box sizes
        # are the known finding below, shells between 1/h and 1 (h > 1) are
        # refused for no reason, which is safe
        if case["ratio"] > max(1, 1 / sim.h):
            t.raises(make, f"{case['mode']} of radius {reach:.2f} Mpc/h in a box of {sim.box} Mpc/h (h={sim.h})", ValueError)
            t.label("too large")
        elif case["ratio"] < min(1, 1 / sim.h):
            make()
            t.label("fits")
        else:
            t.label("mixed units")
    t.nontrivial(sim.h != 1)


def oversize(t):
    """A shell larger than the box is accepted when it fits box_edge / h."""
    from simim.lightcone import SphereMaker
    case = {"s": {"sim": "_testbox", "box": 60.0, "zs": [0.05], "nums": [0], "h": 0.7, "n": 300, "seed": 5, "f4": False, "ties": False}, "mode": "sphere", "mass": 0}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cones.Sim(case["s"], t.scratch)
        z = np.linspace(0, 0.05, 2001)
        b = float(np.interp(0.65 * sim.box, sim.cosmo.comoving_distance(z).value * sim.h, z))
        try:
            m = SphereMaker("_testbox", "lc", redshift_max=b, overwrite=False)
        except ValueError:
            return
        m.build_lightcones(1, rng=np.random.default_rng(1))
        lc = cones.read(os.path.join(sim.lcfolder, "lc", "lc_0000.hdf5"))
        judge(t, sim, lc, (0, b, None, None, list(sim.table)), case, "sphere of radius 39 Mpc/h in a box of 60 Mpc/h (h=0.7)")


FINDINGS = {"P24-oversize": oversize}
CHECKS = [Check("sphere", cones.sphere_cases(), sphere, quick=240, thorough=6000), Check("edges", edge_cases(), edges, quick=600, thorough=10000), Check("size", fits(), size, quick=90, thorough=1500)]
