"""P25: light cones can be rebuilt, and say what they are."""
import builtins
import hashlib
import os
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib import cones


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def state(folder):
    return {os.path.join(d, f): digest(os.path.join(d, f)) for d, _, fs in os.walk(folder) for f in fs}


@st.composite
def histories(draw):
    case = draw(st.one_of(cones.cone_cases(), cones.sphere_cases()))
    case["s"]["n"] = draw(st.sampled_from([0, 30, 1000, 2500]))
    case["n"] = draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append([draw(st.sampled_from(["again", "again", "other seed", "refuse", "refuse", "overwrite", "accept", "no rng"])), draw(st.sampled_from(["lc", "lc", "second"])), draw(st.integers(1, 3)), draw(st.integers(0, 5))])
    case["ops"] = ops
    return case


SKIP = {"created", "finished"}


def plain(v):
    return v.tolist() if hasattr(v, "tolist") else v


def same(t, a, b, what):
    for k in sorted(set(a["attrs"]) | set(b["attrs"])):
        t.check(k in a["attrs"] and k in b["attrs"], f"{what}: attribute {k} in one only")
        if k not in SKIP:
            t.check(np.array_equal(np.asarray(a["attrs"][k]), np.asarray(b["attrs"][k])), f"{what}: attribute {k}: {a['attrs'][k]} and {b['attrs'][k]}")
    for g in ("full", "basic"):
        t.check(set(a[g]) == set(b[g]), f"{what}: columns")
        for k in a[g]:
            t.check(np.array_equal(a[g][k], b[g][k]), f"{what}: column {k} differs")
    t.check(np.array_equal(a["index"], b["index"]), f"{what}: parents differ")
    t.check(np.array_equal(a["zindex"], b["zindex"]), f"{what}: redshift index differs")


def judge(t, sim, case, geo, lc, n, what):
    """What the file says about itself."""
    a, b, angle, asp, use = geo
    at = lc["attrs"]
    want = {"parent sim": case["s"]["sim"], "shape": case["mode"], "cosmo_h": sim.h, "cosmo_omega_matter": 0.3, "cosmo_omega_baryon": 0.05, "cosmo_omega_lambda": 0.7, "box_edge": sim.box, "cosmo_name": "test", "number_snaps": len(sim.table)}
    for k, v in want.items():
        t.check(k in at and plain(at[k]) == v, f"{what}: {k} recorded as {at.get(k)}, is {v}")
    nums = {"minimum redshift": a, "maximum redshift": b, "mass cut": case["mass"]}
    if angle is not None:
        nums.update({"open angle": angle, "aspect ratio": asp if case["mode"] == "box" else case["aspect"] if plain(at.get("aspect ratio")) == case["aspect"] else 1})
    for k, v in nums.items():
        t.check(k in at, f"{what}: {k} not recorded")
        t.close(float(at[k]), float(v), f"{what}: {k}", rtol=1e-12)
    t.check(bool(at["status_initialized"]) and bool(at["status_basic"]), f"{what}: not marked as built")
    got = [int(r["index"]) for r in at["snapshots"]]
    t.check(got == [int(r["index"]) for r in use], f"{what}: snapshots used recorded as {got}, are {[int(r['index']) for r in use]}")
    for g, w in zip(at["snapshots"], use):
        for k in w.dtype.names:
            t.check(g[k] == w[k], f"{what}: snapshot {w['index']}: {k} recorded as {g[k]}, is {w[k]}")
    z = lc["full"]["redshift"].astype(float)
    steps = 10 ** np.linspace(0, np.log10(21.05), 100) - 1
    zi = lc["zindex"]
    t.close(zi["redshift"], steps, f"{what}: redshifts of the index", rtol=1e-5, atol=1e-5)
    for s, i in zip(zi["redshift"].astype(float), zi["index"]):
        lo, hi = int(np.sum(z <= s - 1e-7)), int(np.sum(z <= s + 1e-7))
        t.check(lo <= int(i) <= hi, f"{what}: the redshift index has {i} halos up to z={s}; there are {hi} of {len(z)}")
    # each snapshot only once and in order of distance
    snaps = lc["index"]["snap"]
    order = [int(r["index"]) for r in use]
    runs = [int(s) for k, s in enumerate(snaps) if k == 0 or s != snaps[k - 1]]
    t.check(runs == [s for s in order if s in runs], f"{what}: snapshots are stored in the order {runs}, by distance {order}")


def refused(t, case, sim, name, how):
    from simim.lightcone import LCMaker, SphereMaker
    asked = []

    def answer(prompt=""):
        asked.append(prompt)
        return ["what?", "n"][min(len(asked) - 1, 1)] if how == "check" else "y"
    old = builtins.input
    builtins.input = answer
    try:
        def make():
            kw = {"overwrite": how} if how == False else ({} if case["rng"] % 2 else {"overwrite": "check"})
            if case["mode"] in cones.SPHERES:
                return SphereMaker(case["s"]["sim"], name, redshift_max=1e-4, mode=case["mode"], **kw)
            return LCMaker(case["s"]["sim"], name, 1e-3, redshift_max=1e-3, mode=case["mode"], **kw)
        t.raises(make, f"making light cones under the name {name}, which is in use ({'told not to overwrite' if not how else 'answering no'})", ValueError)
    finally:
        builtins.input = old


def history(case, t):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cones.Sim(case["s"], t.scratch)
        before = digest(sim.path)
        m, geo = cones.make_any(case, sim)
        model = {"lc": [case["rng"], case["n"]]}  # name -> seed and number of realisations last built
        files = {("lc", i) for i in range(case["n"])}
        ref = {}  # (seed, n) -> contents

        def look(name):
            seed, n = model[name]
            lcs = [cones.read(os.path.join(sim.lcfolder, name, f"lc_{i:04d}.hdf5")) for i in range(n)]
            for i, lc in enumerate(lcs):
                judge(t, sim, case, geo, lc, n, f"cone {i} of {name} ({case['mode']})")
            for i in range(n):
                for j in range(i):
                    t.check(not np.array_equal(lcs[i]["attrs"]["start position"], lcs[j]["attrs"]["start position"]), f"realisations {j} and {i} of {name} start at the same place")
                    if case["mode"] not in cones.SPHERES:
                        t.check(not np.array_equal(lcs[i]["attrs"]["line of sight vector"], lcs[j]["attrs"]["line of sight vector"]), f"realisations {j} and {i} of {name} have the same line of sight")
                        t.check(lcs[i]["attrs"]["position angle"] != lcs[j]["attrs"]["position angle"], f"realisations {j} and {i} of {name} have the same position angle")
            if seed is not None:
                if (seed, n) in ref:
                    for i in range(n):
                        same(t, ref[(seed, n)][i], lcs[i], f"realisation {i} built twice from seed {seed}")
                ref[(seed, n)] = lcs
            return lcs
        look("lc")
        done = []
        for k, (kind, name, n, seed) in enumerate(case["ops"]):
            now = state(sim.lcfolder)
            if kind == "refuse":
                if name not in model:
                    continue
                refused(t, case, sim, name, False if seed % 2 else "check")
                t.check(state(sim.lcfolder) == now, f"refused to overwrite {name}, but the files changed")
                t.check(os.path.exists(os.path.join(sim.lcfolder, name)), "folder")
            else:
                s = case["rng"] if kind in ("again", "accept") else case["rng"] + 1 + seed
                n_ = case["n"] if kind in ("again", "accept") else n
                if name in model and kind == "again":
                    name = f"copy{k}"
                if kind == "no rng":
                    name = f"free{k}"
                    mk, _ = cones.make_any(case, sim, name, overwrite=False, rng=s, n=n_)
                    mk.build_lightcones(n_)
                    s = None
                elif kind == "accept" and name in model:
                    old = builtins.input
                    builtins.input = lambda prompt="": "y"
                    try:
                        cones.make_any(case, sim, name, overwrite="check", rng=s, n=n_)
                    finally:
                        builtins.input = old
                else:
                    cones.make_any(case, sim, name, overwrite=True if name in model else False, rng=s, n=n_)
                model[name] = [s, n_]
                files |= {(name, i) for i in range(n_)}
                after = state(sim.lcfolder)
                touched = {p for p in set(now) | set(after) if now.get(p) != after.get(p)}
                own = {os.path.join(sim.lcfolder, name, f"lc_{i:04d}.hdf5") for i in range(n_)}
                t.check(touched <= own, f"building {n_} cones named {name} changed {sorted(touched - own)}")
                lcs = look(name)
                if s is None:
                    for old_ in done:
                        t.check(not np.array_equal(old_["attrs"]["start position"], lcs[0]["attrs"]["start position"]), "two builds without a generator start at the same place")
                    done.append(lcs[0])
            t.check(digest(sim.path) == before, "the simulation's own file changed")
            got = {os.path.relpath(p, sim.lcfolder) for p in state(sim.lcfolder)}
            want = {os.path.join(nm, f"lc_{i:04d}.hdf5") for nm, i in files}
            t.check(got == want, f"light-cone files {sorted(got)}, expected {sorted(want)}")
        if case["s"]["n"]:
            pass
        rows = sum(len(l["index"]) for ls in ref.values() for l in ls)
    t.label(case["mode"], "rows:" + ("0" if not rows else "some"), *[o[0] for o in case["ops"]])
    t.nontrivial(rows > 1 and any(o[0] != "refuse" for o in case["ops"]))


CHECKS = [Check("history", histories(), history, quick=220, thorough=3000)]
