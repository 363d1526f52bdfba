"""Catalog files written without the code under test, property definitions
with a known formula, and the reference evaluation of both."""
import os
import h5py
import numpy as np
from vlib.hyp import st
from vlib.core import HarnessError

HS = [0.5, 0.6774, 0.7, 1.0, 1.3]
# name: (dtype, unit, power of h)
STORED = {"mass": ("f8", "Msun/h", -1), "pos_x": ("f4", "Mpc/h", -1), "pos_y": ("f8", "Mpc/h", -1), "pos_z": ("f4", "Mpc/h", -1),
          "vel": ("f8", "km/s", 0), "tag": ("i8", "None", 0), "vol": ("f8", "(Mpc/h)^3", -3), "rate": ("f4", "h/Gyr", 1), "count": ("i4", "None", 0)}


def catalog(seed, n, names, box=50.0, ties=False):
    """Values are small multiples of 1/8, so every stored type holds them exactly."""
    r = np.random.default_rng(seed)
    out = {}
    for k in sorted(STORED):
        v = r.integers(1, 400, n) / 8.0
        if k == "mass":
            v = 1e10 * (1 + r.integers(0, 3 if ties else 4000, n) / 8.0)
            v = np.sort(v)[::-1]
        elif k.startswith("pos"):
            v = r.integers(0, int(box * 8), n) / 8.0
        elif STORED[k][0][0] == "i":
            v = r.integers(0, 100, n)  # no negative ones: sums then keep their relative precision
        out[k] = np.array(v).astype(STORED[k][0])
    return {k: out[k] for k in names}


def write_group(f, group, cat, cuts=True):
    g = f.create_group(group)
    for k, v in cat.items():
        d = g.create_dataset(k, data=v)
        d.attrs["units"] = STORED[k][1]
        d.attrs["h dependence"] = STORED[k][2]
    if cuts:
        mc = np.zeros(141, dtype=[("min_mass", "f"), ("index", "i")])
        mc["min_mass"] = np.logspace(6, 20, 141)[::-1]
        mc["index"] = [int(np.sum(cat["mass"] >= m)) for m in mc["min_mass"]]
        g.create_dataset("mass_cuts", data=mc)


def cosmology(h, om=0.3, ob=0.05):
    from astropy.cosmology import FlatLambdaCDM
    import astropy.units as u
    return FlatLambdaCDM(H0=100 * h * u.km / u.s / u.Mpc, Om0=om, Ob0=ob, Tcmb0=2.7255 * u.K)


SNAPDT = [("index", "i"), ("redshift", "f8"), ("redshift_min", "f8"), ("redshift_max", "f8"), ("time_start", "f8"), ("time_end", "f8"),
          ("distance_min", "f8"), ("distance_max", "f8"), ("transverse_distance_min", "f8"), ("transverse_distance_max", "f8")]


def snap_table(cosmo, indices, redshifts, closed=True):
    """Bounds half-way in age; the snapshots come in any order."""
    from astropy.cosmology import z_at_value
    import astropy.units as u
    order = np.argsort(redshifts)
    z = np.asarray(redshifts, float)[order]
    edges = [0.0]
    for a, b in zip(z[:-1], z[1:]):
        mid = (cosmo.age(a).value + cosmo.age(b).value) / 2
        edges.append(float(z_at_value(cosmo.age, mid * u.Gyr)))
    edges.append(float(z[-1]))
    t = np.zeros(len(z), dtype=SNAPDT)
    for i in range(len(z)):
        lo, hi = edges[i], edges[i + 1]
        t[i] = (indices[order[i]], z[i], lo, hi, cosmo.age(hi).value, cosmo.age(lo).value,
                cosmo.comoving_distance(lo).value, cosmo.comoving_distance(hi).value,
                cosmo.comoving_transverse_distance(lo).value, cosmo.comoving_transverse_distance(hi).value)
    return np.sort(t, order="index")


def write_sim(folder, h, om, ob, box, table, cats):
    """A simulation data file; cats: {index: catalog}."""
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "data.hdf5")
    with h5py.File(path, "w") as f:
        f.attrs["name"] = "_testbox"
        f.attrs["cosmo_name"] = "test"
        f.attrs["cosmo_omega_matter"] = om
        f.attrs["cosmo_omega_lambda"] = 1 - om
        f.attrs["cosmo_omega_baryon"] = ob
        f.attrs["cosmo_h"] = h
        f.attrs["box_edge"] = box
        f.attrs["number_snaps"] = len(table)
        f.attrs["snapshots"] = table
        for i, c in cats.items():
            write_group(f, f"Snapshot {i}", c)
    return path


def register(folder, sim="_testbox"):
    """Point the package's registry (which lives in this worker's own scratch
    data root) at a simulation folder."""
    from simim._paths import _SimIMPaths
    _SimIMPaths()._newsimpath(sim, new_path=folder, checkoverwrite=False)


class Func:
    """A property function with a record of what it was given."""

    def __init__(self, spec):
        self.spec = spec
        self.calls = []

    def __call__(self, **kw):
        self.calls.append({k: np.array(v) for k, v in kw.items()})
        return evaluate(self.spec, kw)


def evaluate(spec, kw):
    """spec: {'ins': [...], 'outs': [(k, kind)...], 'short': None|j}"""
    outs = []
    first = np.asarray(kw[spec["ins"][0]])
    for j, (k, kind) in enumerate(spec["outs"]):
        v = np.zeros(first.shape) + k
        for i, name in enumerate(spec["ins"]):
            x = np.asarray(kw[name], dtype=float)
            v = v + (i + 1 + j) * x
        v = v + float(kw.get("extra", 0.0))
        if kind == "int":
            with np.errstate(all="ignore"):
                v = np.floor(np.nan_to_num(v) % 1000).astype(int)
        elif kind == "bool":
            v = v > k * 20
        elif kind == "f4":
            v = v.astype(np.float32)
        if spec.get("short") == j:
            v = v[:-1]
        outs.append(v)
    if len(outs) == 1:
        return outs[0]
    return outs


STORED.update({"ra": ("f8", "radians", 0), "dec": ("f8", "radians", 0), "redshift": ("f8", "None", 0)})


def write_lc(sim_root, name, number, h, om, ob, shape, zmin, zmax, cat, open_angle=None, aspect=None, sim="_testbox"):
    """A light cone file in the folder the registry lists for light cones."""
    folder = os.path.join(sim_root, name)
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"lc_{number:04d}.hdf5")
    with h5py.File(path, "w") as f:
        f.attrs["name"] = sim
        f.attrs["cosmo_omega_matter"] = om
        f.attrs["cosmo_omega_lambda"] = 1 - om
        f.attrs["cosmo_omega_baryon"] = ob
        f.attrs["cosmo_h"] = h
        f.attrs["shape"] = shape
        f.attrs["minimum redshift"] = zmin
        f.attrs["maximum redshift"] = zmax
        if open_angle is not None:
            f.attrs["open angle"] = open_angle
            f.attrs["aspect ratio"] = aspect
        write_group(f, "Lightcone Full", cat, cuts=False)
    return path


def register_lc(folder, sim="_testbox"):
    from simim._paths import _SimIMPaths
    os.makedirs(folder, exist_ok=True)
    _SimIMPaths()._newlcpath(sim, new_path=folder, checkoverwrite=False)
