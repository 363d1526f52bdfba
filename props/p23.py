"""P23: properties added to light cones, row by row."""
import os
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib import cones, hand

SCALAR = ["halo_id", "stars", "tag", "rate", "masscheck"]


@st.composite
def histories(draw):
    case = draw(st.one_of(cones.cone_cases(), cones.cone_cases(), cones.sphere_cases()))
    case["s"]["n"] = draw(st.sampled_from([0, 30, 1000, 2500, 4000]))
    case["n"] = draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["scalar", "scalar", "vector", "vector", "own"]))
        if k == "scalar":
            ops.append(["scalar", draw(st.lists(st.sampled_from(SCALAR + ["zzz", "v_x", "mass"]), min_size=1, max_size=4, unique=True))])
        elif k == "vector":
            ops.append(["vector", draw(st.lists(st.sampled_from(["v", "spin", "zzz"]), min_size=1, max_size=3, unique=True))])
        else:
            ops.append(["own", draw(st.integers(0, 5))])
    case["ops"] = ops
    return case


def turn(lc, vec):
    """Vectors (3, rows) of the simulation as the cone must store them."""
    at = lc["attrs"]
    v = vec * np.array(at["box flips"], float)[:, None]
    if at["shape"] in cones.SPHERES:
        return v
    x = np.array(at["position angle transformation matrix"]) @ np.array(at["line of sight transformation matrix"]) @ v
    return np.array([x[1], x[2], x[0]])


def judge(t, sim, lc, base, have, own, what):
    f, ix = lc["full"], lc["index"]
    rows = len(ix)
    for k, v in base["full"].items():
        t.check(k in f and np.array_equal(f[k], v), f"{what}: column {k} changed")
    t.check(np.array_equal(ix, base["index"]), f"{what}: the parents changed")
    t.check(set(f) == set(base["full"]) | have | set(own), f"{what}: columns {sorted(f)}, expected {sorted(set(base['full']) | have | set(own))}")

    def parent(k):
        src = [sim.cats[int(s)][k][int(i)] for s, i in zip(ix["snap"], ix["index"])]
        return np.array(src, dtype=next(iter(sim.cats.values()))[k].dtype)
    for k in have:
        src = "mass" if k == "masscheck" else k
        t.check(len(f[k]) == rows, f"{what}: {k} has {len(f[k])} rows of {rows}")
        t.check(tuple(lc["units"][k]) == (hand.STORED[src][1], hand.STORED[src][2]), f"{what}: units of {k} are {lc['units'][k]}, the simulation's {hand.STORED[src][1:]}")
        if k in cones.VEC:
            stem = k[:-2]
            v = np.array([parent(stem + a).astype(float) for a in ("_x", "_y", "_z")]).reshape(3, rows)
            want = turn(lc, v)[("_x", "_y", "_z").index(k[-2:])]
            t.close(f[k], want, f"{what}: {k}", rtol=0, atol=2e-7 * 800)
        elif k == "masscheck":
            t.check(np.array_equal(f[k].astype("f4"), f["mass"].astype("f4")), f"{what}: masscheck differs from the masses")
        else:
            t.equal(f[k].astype(sim.cats[min(sim.cats)][k].dtype), parent(k), f"{what}: {k}")
    for k, v in own.items():
        t.close(f[k], f["mass"] * 2.0 + v, f"{what}: own property {k}", rtol=1e-6)


def history(case, t):
    from simim.lightcone.lchandler import LCHandler
    from simim.galprops.galprops import Prop
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cones.Sim(case["s"], t.scratch)
        m, geo = cones.make_any(case, sim)
        paths = [os.path.join(sim.lcfolder, "lc", f"lc_{i:04d}.hdf5") for i in range(case["n"])]
        base = [cones.read(p) for p in paths]
        for b in base:
            for k in ("pos_x", "pos_y", "pos_z"):
                t.check(tuple(b["units"][k]) == hand.STORED[k][1:] if k in b["units"] else False, f"units of {k}")
        have, own = set(), [{} for _ in paths]
        for k_, (kind, arg) in enumerate(case["ops"]):
            if kind == "scalar":
                m.add_properties(*arg)
                have |= {k for k in arg if k in SCALAR}
            elif kind == "vector":
                m.add_pos_properties(*arg)
                have |= {k + a for k in arg if k != "zzz" for a in ("_x", "_y", "_z")}
            else:
                j = arg % len(paths)
                name = f"own{k_}"
                h = LCHandler(case["s"]["sim"], "lc", j, in_h_units=True)
                h.make_property(Prop(name, lambda mass, a=arg: 2.0 * mass + a, ["mass"], ["None"], [0]))
                h.write_property(name)
                own[j][name] = arg
            for j, p in enumerate(paths):
                judge(t, sim, cones.read(p), base[j], have, own[j], f"cone {j} of {len(paths)} ({case['mode']}) after {case['ops'][:k_ + 1]}")
    rows = sum(len(b["index"]) for b in base)
    t.label("rows:" + ("0" if rows == 0 else "1-9" if rows < 10 else "10+"), case["mode"], "snaps:" + str(len(set(np.concatenate([b["index"]["snap"] for b in base])))))
    t.nontrivial(rows > 1 and have)


CHECKS = [Check("history", histories(), history, quick=380, thorough=4000)]
