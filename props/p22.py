"""P22: light cones against brute force over all periodic images."""
import os
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib import cones


def judge(t, sim, lc, geo, case, what):
    a, b, angle, asp, use = geo
    at = lc["attrs"]
    B = sim.box
    L, P = np.array(at["line of sight transformation matrix"]), np.array(at["position angle transformation matrix"])
    los, flips, start = np.array(at["line of sight vector"]), np.array(at["box flips"]), np.array(at["start position"])
    t.close(L @ L.T, np.eye(3), f"{what}: the line of sight transformation is not a rotation", rtol=0, atol=1e-9)
    t.close(P @ P.T, np.eye(3), f"{what}: the position angle transformation is not a rotation", rtol=0, atol=1e-9)
    t.close(L @ los, [1.0, 0, 0], f"{what}: line of sight under its own transformation", rtol=0, atol=1e-9)
    pa = float(at["position angle"])
    t.close(P, [[1, 0, 0], [0, np.cos(pa), -np.sin(pa)], [0, np.sin(pa), np.cos(pa)]], f"{what}: position angle {pa} and its matrix", rtol=0, atol=1e-9)
    t.check(set(np.abs(flips)) <= {1} and np.all(start >= 0) and np.all(start <= B), f"{what}: flips {flips}, start {start}")
    R = P @ L
    f = lc["full"]
    rows = len(f["mass"])
    for k in ("pos_x", "pos_y", "pos_z", "ra", "dec", "redshift", "mass"):
        t.check(k in f and len(f[k]) == rows and np.array_equal(f[k], lc["basic"][k]), f"{what}: column {k}")
    t.check(len(lc["index"]) == rows, f"{what}: {len(lc['index'])} parents for {rows} rows")
    dz = [sim.distance(a), sim.distance(b)]
    want, maybe = set(), set()
    for r in use:
        snap = int(r["index"])
        d0, d1 = max(float(r["distance_min"]), dz[0]), min(float(r["distance_max"]), dz[1])
        if d1 <= d0 - 1e-6:
            continue
        half = (angle if case["mode"] == "box" else angle / 2) * d1 + 1
        for keep, nn, q in cones.images(sim, snap, case["mass"], flips, start, (los * d0, los * d1), half):
            d = np.sqrt((q**2).sum(axis=2))
            sel = (d > d0 - 1e-3) & (d < d1 + 1e-3)
            i, j = np.nonzero(sel)
            x = (R @ q[i, j].T).T
            d = d[i, j]
            if case["mode"] == "circle":
                off = np.sqrt(x[:, 1]**2 + x[:, 2]**2) / d - angle / 2
            else:
                off = np.maximum(np.abs(x[:, 1]) / d - angle / 2, np.abs(x[:, 2]) / d - angle * asp / 2)
            ahead = x[:, 0] > 0
            off = np.where(ahead, off, 9)
            eps = 1e-6
            sure = (off < -eps) & (d >= d0 + eps) & (d < d1 - eps)
            could = (off < eps) & (d >= d0 - eps) & (d < d1 + eps)
            for s_, c_, ii, jj in zip(sure, could, i, j):
                key = (snap, int(keep[ii])) + tuple(int(v) for v in nn[ii, jj])
                if s_:
                    want.add(key)
                if c_:
                    maybe.add(key)
    # which image each row is
    lcpos = np.array([f["pos_z"], f["pos_x"], f["pos_y"]]).T.reshape(rows, 3).astype(float)
    raw = lcpos @ R  # = R^T x
    got = []
    for row in range(rows):
        snap, i = int(lc["index"]["snap"][row]), int(lc["index"]["index"][row])
        t.check(snap in sim.cats and 0 <= i < len(sim.cats[snap]["mass"]), f"{what}: row {row} comes from object {i} of snapshot {snap}")
        c = sim.cats[snap]
        p = np.array([c[k][i] for k in ("pos_x", "pos_y", "pos_z")], float) * flips - start
        n = (raw[row] - p) / B
        t.check(np.all(np.abs(n - np.round(n)) * B < 1e-5), f"{what}: row {row} (object {i} of snapshot {snap}) sits at {lcpos[row]}, which is no periodic image of that object: off by {(n - np.round(n)) * B} Mpc/h")
        got.append((snap, i) + tuple(int(v) for v in np.round(n)))
        t.check(f["mass"][row] == c["mass"][i], f"{what}: row {row} has mass {f['mass'][row]}, its object {c['mass'][i]}")
    seen = set(got)
    t.check(len(seen) == len(got), f"{what}: {len(got) - len(seen)} halos appear more than once")
    for key in sorted(seen - maybe):
        row = got.index(key)
        d = np.linalg.norm(lcpos[row])
        raise_(t, f"{what}: the cone holds object {key[1]} of snapshot {key[0]} at distance {d}, off axis {lcpos[row][1] / d}, {lcpos[row][2] / d}; limits {dz}, angles {angle}, {angle * asp}")
    miss = sorted(want - seen)
    if miss:
        c = sim.cats[miss[0][0]]
        p = np.array([c[k][miss[0][1]] for k in ("pos_x", "pos_y", "pos_z")], float) * flips - start + B * np.array(miss[0][2:])
        x = R @ p
        d = np.linalg.norm(x)
        raise_(t, f"{what}: {len(miss)} of {len(want)} halos are missing; first: object {miss[0][1]} of snapshot {miss[0][0]} at distance {d}, off axis {x[1] / d}, {x[2] / d}; limits {dz}, angles {angle}, {angle * asp}")
    d = np.sqrt((lcpos**2).sum(axis=1))
    t.close(f["ra"], f["pos_x"] / d, f"{what}: ra", rtol=1e-9, atol=1e-12)
    t.close(f["dec"], f["pos_y"] / d, f"{what}: dec", rtol=1e-9, atol=1e-12)
    if rows:
        t.close(sim.cosmo.comoving_distance(f["redshift"].astype(float)).value * sim.h, d, f"{what}: distance at the recorded redshift", rtol=1e-5, atol=1e-3)
    return rows


def raise_(t, msg):
    t.fail(msg)


def cone(case, t):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cones.Sim(case["s"], t.scratch)
        m, geo = cones.make_cone(case, sim)
        rows = 0
        for i in range(case["n"]):
            lc = cones.read(os.path.join(sim.lcfolder, "lc", f"lc_{i:04d}.hdf5"))
            rows += judge(t, sim, lc, geo, case, f"light cone {i} (z {geo[0]:.4f}-{geo[1]:.4f}, {case['mode']} {geo[2]:.4f} rad x {geo[3]}, box {sim.box}, {len(geo[4])} snapshots)")
    t.label("rows:" + ("0" if rows == 0 else "1-9" if rows < 10 else "10-99" if rows < 100 else "100+"), case["mode"], "snapshots:" + str(len(geo[4])))
    t.nontrivial(rows > 1)


@st.composite
def edge_cases(draw):
    case = draw(cones.cone_cases())
    case["s"] = dict(case["s"], n=0)
    case["m"] = draw(st.sampled_from([50, 300, 300, 800]))
    case["n"] = draw(st.sampled_from([1, 1, 3]))
    if case["mass"] == 1e15:
        case["mass"] = 0
    return case


def edges(case, t):
    """The same cone, its halos placed on the surfaces of the cone."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cones.Sim(case["s"], t.scratch)
        mass, case["mass"] = case["mass"], 0
        which = case["n"] - 1
        m, geo = cones.make_cone(case, sim)
        path = os.path.join(sim.lcfolder, "lc", f"lc_{which:04d}.hdf5")
        sim.cats = cones.aimed(sim, geo, cones.read(path)["attrs"], case["mode"], case["s"]["seed"], case["m"])
        sim.write()
        case["mass"] = mass
        m, geo = cones.make_cone(case, sim, overwrite=True)
        rows = judge(t, sim, cones.read(path), geo, case, f"light cone {which} (z {geo[0]:.4f}-{geo[1]:.4f}, {case['mode']} {geo[2]:.4f} rad x {geo[3]}, box {sim.box}, {len(geo[4])} snapshots, halos near its surface)")
    t.label("rows:" + ("0" if rows == 0 else "1-9" if rows < 10 else "10-99" if rows < 100 else "100+"), case["mode"], "snapshots:" + str(len(geo[4])))
    t.nontrivial(rows > 10)


CHECKS = [Check("cone", cones.cone_cases(), cone, quick=160, thorough=9000), Check("edges", edge_cases(), edges, quick=500, thorough=15000)]
