"""Light cones built by the real makers from hand-written simulations, and the
brute-force reference: every periodic image of every halo."""
import os
import h5py
import numpy as np
from vlib.hyp import st
from vlib.grids import SEED
from vlib import hand

_cache = {}


def memoise_distances():
    """The makers tabulate 100000 distances each; astropy's answers for such
    long arrays are remembered between cases."""
    from astropy.cosmology import FlatLambdaCDM
    if getattr(FlatLambdaCDM, "_verif_memo", False):
        return
    orig = FlatLambdaCDM.comoving_distance

    def comoving_distance(self, z, *a, **k):
        if not a and not k and isinstance(z, np.ndarray) and z.size > 5000:
            key = (type(self).__name__, float(self.H0.value), float(self.Om0), float(self.Ob0), float(self.Tcmb0.value), z.tobytes())
            if key not in _cache:
                if len(_cache) > 40:
                    _cache.clear()
                _cache[key] = orig(self, z)
            return _cache[key].copy()
        return orig(self, z, *a, **k)
    FlatLambdaCDM.comoving_distance = comoving_distance
    FlatLambdaCDM._verif_memo = True


VEC = {"v_x": "f4", "v_y": "f4", "v_z": "f4", "spin_x": "f8", "spin_y": "f8", "spin_z": "f8"}
for _k, _d in VEC.items():
    hand.STORED[_k] = (_d, "km/s", 0) if _k[0] == "v" else (_d, "kpc/h km/s", -1)
hand.STORED["halo_id"] = ("i8", "None", 0)
hand.STORED["stars"] = ("f8", "Msun/h", -1)


@st.composite
def simulations(draw, boxes=(60.0, 100.0, 150.0, 250.0), zmax=(0.05, 0.08, 0.12, 0.3, 0.3, 0.6, 1.1), sims=("_testbox", "_testbox", "TNG300-1")):
    k = draw(st.integers(1, 4))
    top = draw(st.sampled_from(zmax))
    fr = sorted(draw(st.lists(st.integers(1, 19), min_size=k - 1, max_size=k - 1, unique=True)))
    zs = [top * f / 20 for f in fr] + [top]
    if k > 1 and draw(st.booleans()):
        zs[0] = 0.0
    return {"sim": draw(st.sampled_from(sims)), "box": draw(st.sampled_from(boxes)), "zs": zs, "nums": draw(st.sampled_from([[0, 1, 2, 3], [7, 5, 4, 2], [3, 10, 11, 40]])), "h": draw(st.sampled_from([0.6774, 0.7, 0.7, 1.0, 1.3])),
            "n": draw(st.sampled_from([0, 30, 1000, 2500, 4000, 6000])), "seed": draw(SEED), "f4": draw(st.booleans()), "ties": draw(st.booleans())}


def halos(seed, n, box, ties=False):
    r = np.random.default_rng(seed)
    c = {"mass": np.sort(10 ** (r.integers(80, 140, n) / 10.0 if ties else r.uniform(8, 14, n)))[::-1].astype("f4")}
    for k in ("pos_x", "pos_y", "pos_z"):
        p = r.uniform(0, box, n)
        near = r.random(n) < 0.1  # hug the faces
        p = np.where(near, np.where(r.random(n) < 0.5, r.uniform(0, 1e-3, n), box - r.uniform(1e-3, 2e-3, n)), p)
        c[k] = p.astype("f4")
    for k, d in VEC.items():
        c[k] = r.normal(0, 100, n).astype(d)
    c["halo_id"] = r.integers(2**31, 2**40, n)
    c["stars"] = r.uniform(1, 1e9, n)
    c["tag"] = r.integers(0, 1000, n)
    c["rate"] = r.uniform(0, 1, n).astype("f4")
    return c


def tie(case, sim):
    """A minimum mass given as ["tie", i] is exactly the mass of the i-th halo."""
    if isinstance(case["mass"], list):
        masses = np.concatenate([c["mass"] for c in sim.cats.values()]) if sim.cats else []
        case["mass"] = float(np.sort(masses)[case["mass"][1] % len(masses)]) if len(masses) else 0
    return case["mass"]


def aimed(sim, geo, attrs, mode, seed, n):
    """Catalogs whose halos lie on and around the surfaces of a light cone with
    the recorded orientation: its sides, corners and ends, and the distances
    where one snapshot or one pass through the box takes over from another."""
    a, b, angle, asp, use = geo
    r = np.random.default_rng(seed)
    B = sim.box
    flips, start = np.array(attrs["box flips"], float), np.array(attrs["start position"], float)
    dz = [sim.distance(a), sim.distance(b)]
    cats = {}
    for j, (idx, old) in enumerate(sim.cats.items()):
        rows = [x for x in use if int(x["index"]) == idx]
        c = halos(seed + 7 * j, n, B)
        if rows:
            d0, d1 = max(float(rows[0]["distance_min"]), dz[0]), min(float(rows[0]["distance_max"]), dz[1])
            d1 = max(d0, d1)
            deep = d1 - d0
            # pass boundaries are wherever the span is divided equally
            cut = np.array([d0 + deep * r.integers(0, k + 1) / k for k in r.integers(1, 30, n)])
            small = 10.0 ** r.uniform(-5, 0.5, n) * r.choice([-1, 1], n)
            end = np.where(r.random(n) < 0.5, d0, d1) + small
            d = np.select([r.random(n) < 0.4, r.random(n) < 0.5], [d0 + deep * r.random(n), cut + small], end)
            d = np.maximum(d, 1e-3)
            if mode in SPHERES:
                v = r.normal(size=(n, 3))
                flat = r.random((n, 3)) < 0.15
                v = np.where(flat, v * 1e-6, v)
                x = v / np.linalg.norm(v, axis=1)[:, None] * d[:, None]
            else:
                off = (1 + 10.0 ** r.uniform(-6, -1, (n, 2)) * r.choice([-1, -1, 1], (n, 2))) * r.choice([-1, 1], (n, 2))
                if mode == "circle":
                    th = r.uniform(0, 2 * np.pi, n)
                    u = np.array([np.cos(th), np.sin(th)]).T * angle / 2 * off[:, :1]
                else:
                    half = np.array([angle / 2, angle * asp / 2])
                    u = half * off
                    for k in (0, 1):  # along the sides, not only at the corners
                        side = r.random(n) < 0.25
                        u[:, k] = np.where(side, half[k] * r.uniform(-1, 1, n), u[:, k])
                x = np.array([d * np.sqrt(np.maximum(1 - (u**2).sum(axis=1), 0)), d * u[:, 0], d * u[:, 1]]).T
                R = np.array(attrs["position angle transformation matrix"]) @ np.array(attrs["line of sight transformation matrix"])
                x = x @ R
            p = (flips * (x + start)) % B
            for k, key in enumerate(("pos_x", "pos_y", "pos_z")):
                c[key] = np.minimum(p[:, k], B * (1 - 1e-7)).astype(old[key].dtype)
        cats[idx] = c
    return cats


class Sim:
    def __init__(self, case, scratch, register=True):
        self.case = case
        self.h, self.box = case["h"], case["box"]
        self.cosmo = hand.cosmology(self.h)
        k = len(case["zs"])
        idx = case["nums"][:k]
        table = hand.snap_table(self.cosmo, idx, case["zs"])
        for f in ("distance_min", "distance_max", "transverse_distance_min", "transverse_distance_max"):
            table[f] *= self.h
        if case["f4"]:
            table = table.astype([(n, "i4" if n == "index" else "f4") for n in table.dtype.names])
        self.table = table
        self.cats = {int(i): halos(case["seed"] + 13 * j, case["n"] if j % 3 < 2 else case["n"] // 2, self.box, case["ties"]) for j, i in enumerate(idx)}
        self.folder = os.path.join(scratch, "sim")
        self.lcfolder = os.path.join(scratch, "cones")
        self.write()
        hand.register(self.folder, case["sim"])
        hand.register_lc(self.lcfolder, case["sim"])
        memoise_distances()

    def write(self):
        self.path = hand.write_sim(self.folder, self.h, 0.3, 0.05, self.box, self.table, self.cats)

    def distance(self, z):
        return float(self.cosmo.comoving_distance(z).value) * self.h

    def zlimits(self, lo, hi, cap=None):
        """lo, hi: ['frac', x] of the simulation's range, ['edge', i] a snapshot boundary, or None for the default; nothing beyond cap."""
        s = np.sort(self.table, order="redshift")
        edges = [0.0] + [float(x) for x in s["redshift_max"]]
        if cap is not None and cap < edges[-1]:
            edges = [e for e in edges if e < cap] + [cap]
        top = edges[-1]

        def val(v, default):
            if v is None:
                return default
            if v[0] == "frac":
                return v[1] * top
            return edges[v[1] % len(edges)]
        a, b = val(lo, 0.0), val(hi, top)
        return (a, b) if a <= b else (b, a)


def limits(lo=0, hi=1):
    return st.one_of(st.none(), st.none(), st.tuples(st.just("frac"), st.floats(lo, hi).map(lambda x: round(x, 3))), st.tuples(st.just("edge"), st.integers(0, 4)))


MASS = st.sampled_from([0, 0, 0, 1.03e9, 1.03e9, 1.03e11, 1e15, ["tie", 3], ["tie", 50], ["tie", 401]])


@st.composite
def cone_cases(draw):
    return {"s": draw(simulations()), "lo": draw(limits(0, 0.5)), "hi": draw(limits(0.4, 1)), "size": draw(st.sampled_from([2, 6, 9, 10, 11, 12])), "mode": draw(st.sampled_from(["box", "box", "circle"])), "aspect": draw(st.sampled_from([1, 1, 0.8, 0.5, 0.1])),
            "mass": draw(MASS), "n": draw(st.sampled_from([1, 1, 2])), "rng": draw(SEED)}


SPHERES = ["sphere", "hemisphere", "quarter", "eighth"]


@st.composite
def sphere_cases(draw):
    return {"s": draw(simulations(zmax=(0.01, 0.02, 0.03, 0.05, 0.08))), "lo": draw(limits(0, 0.5)), "hi": draw(limits(0.4, 1)), "mode": draw(st.sampled_from(SPHERES)),
            "mass": draw(MASS), "n": draw(st.sampled_from([1, 1, 2])), "rng": draw(SEED)}


def make_any(case, sim, name="lc", **k):
    return (make_sphere if case["mode"] in SPHERES else make_cone)(case, sim, name, **k)


def make_cone(case, sim, name="lc", overwrite=False, rng=None, n=None):
    """The real maker on a geometry that fits the box; the maker and (zmin,
    zmax, angle, aspect, snapshots whose range is touched)."""
    from simim.lightcone import LCMaker
    a, b = sim.zlimits(case["lo"], case["hi"])
    s = np.sort(sim.table, order="redshift")
    use = [r for r in s if a <= r["redshift_max"] and b >= r["redshift_min"]]
    reach = max([float(r["transverse_distance_max"]) for r in use] + [sim.distance(b), 1.0])
    asp = 1 if case["mode"] == "circle" else case["aspect"]
    # radius of the face; at most 0.18 box lengths, at most 0.2 rad
    radius = min(case["size"] / 12 * 0.18 * sim.box / reach, 0.2)
    angle = 2 * radius if case["mode"] == "circle" else 2 * radius / np.sqrt(1 + asp**2)
    kw = {"redshift_min": a, "redshift_max": b}
    tie(case, sim)
    if case["lo"] is None and a == 0:
        kw.pop("redshift_min")
    if case["hi"] is None and b == float(s[-1]["redshift_max"]):
        kw["redshift_max"] = "max"
    if case["mass"]:
        kw["minimum_mass"] = case["mass"]
    if case["mode"] == "circle":
        kw["mode"] = "circle"  # of no account here is the
    if case["aspect"] != 1:
        kw["aspect"] = case["aspect"]
    m = LCMaker(case["s"]["sim"], name, angle * 180 / np.pi, overwrite=overwrite, **kw)
    m.build_lightcones(case["n"] if n is None else n, rng=np.random.default_rng(case["rng"] if rng is None else rng))
    return m, (a, b, angle, asp, use)


def make_sphere(case, sim, name="lc", overwrite=False, rng=None, n=None):
    from simim.lightcone import SphereMaker
    top = float(np.max(sim.table["redshift_max"]))
    reach = min(1, 1 / sim.h) * (sim.box if case["mode"] == "eighth" else sim.box / 2)
    z = np.linspace(0, top, 2001)
    zr = float(np.interp(reach * 0.9999, sim.cosmo.comoving_distance(z).value * sim.h, z))
    a, b = sim.zlimits(case["lo"], case["hi"], zr)
    use = [r for r in np.sort(sim.table, order="redshift") if a <= r["redshift_max"] and b >= r["redshift_min"]]
    kw = {"redshift_min": a, "redshift_max": b, "mode": case["mode"]}
    tie(case, sim)
    if case["mass"]:
        kw["minimum_mass"] = case["mass"]
    if a == 0 and case["lo"] is None:
        kw.pop("redshift_min")
    if case["mode"] == "sphere":
        kw.pop("mode")
    if case["hi"] is None and b == top:
        kw["redshift_max"] = "max"
    m = SphereMaker(case["s"]["sim"], name, overwrite=overwrite, **kw)
    m.build_lightcones(case["n"] if n is None else n, rng=np.random.default_rng(case["rng"] if rng is None else rng))
    return m, (a, b, None, None, use)


def read(path):
    with h5py.File(path, "r") as f:
        d = {"attrs": {k: f.attrs[k] for k in f.attrs}}
        d["basic"] = {k: f["Lightcone Basic"][k][:] for k in f["Lightcone Basic"]}
        d["full"] = {k: f["Lightcone Full"][k][:] for k in f["Lightcone Full"]}
        d["units"] = {k: (f["Lightcone Full"][k].attrs["units"], f["Lightcone Full"][k].attrs["h dependence"]) for k in f["Lightcone Full"]}
        d["index"] = f["Indexing"]["sim_indices"][:]
        d["zindex"] = f["Indexing"]["redshift_indices"][:]
    return d


def images(sim, snap, minimum_mass, flips, start, segment, half):
    """All periodic images that can lie within `half` of the segment (two end
    points relative to the observer); yields (indices, n-vectors, positions)."""
    c = sim.cats[snap]
    keep = np.nonzero(c["mass"].astype(float) >= minimum_mass)[0]
    B = sim.box
    p = np.array([c[k][keep].astype(float) for k in ("pos_x", "pos_y", "pos_z")]).T.reshape(len(keep), 3) * flips - start
    # bring everything into one cell, so that a cell's place tells where its halos are
    shift = np.floor(p / B)
    p0 = p - B * shift
    e0, e1 = (np.asarray(e, float) for e in segment)
    lo, hi = np.minimum(e0, e1) - half, np.maximum(e0, e1) + half
    rng = [np.arange(int(np.floor(lo[a] / B)) - 1, int(np.ceil(hi[a] / B)) + 1) for a in range(3)]
    n = np.array(np.meshgrid(*rng, indexing="ij")).reshape(3, -1).T
    mid = (n + 0.5) * B
    u = e1 - e0
    L = float(np.sqrt(u @ u))
    s = np.clip((mid - e0) @ u / (L * L), 0, 1) if L > 0 else np.zeros(len(mid))
    gap = np.linalg.norm(mid - e0 - s[:, None] * u, axis=1)
    n = n[gap < half + 0.9 * B]
    for k in range(0, len(n), 64):
        nn = n[k:k + 64]
        q = p0[:, None, :] + B * nn[None, :, :]
        yield keep, nn[None, :, :] - shift[:, None, :], q
