"""P18: formatting raw catalogs, by a plain subclass and by the shipped ones."""
import builtins
import os
import shlex
import shutil
import warnings
import h5py
import numpy as np
from vlib.hyp import st
from vlib.core import Check, Violation
from vlib.grids import SEED
from vlib import hand
from simim.siminterface import IllustrisCatalogs, SimHandler, UchuuCatalogs, UniversemachineCatalogs
from simim.siminterface._rawsiminterface import SimCatalogs
from simim.galprops import Prop

BASIC = {"P": [("pos_x", "f", "Mpc/h", -1), ("pos_y", "f", "Mpc/h", -1), ("pos_z", "f", "Mpc/h", -1)], "M": [("mass", "f", "Msun/h", -1)]}
DM = {"ID": [("id", "i", "None", 0)], "W": [("wx", "f", "km/s", 0), ("none", "f", "km/s", 0), ("wz", "f", "km/s", 0)]}
MAT = {"S": [("stars", "f", "Msun/h", -1)], "R": [("rate", "f8", "h/Gyr", 1)]}
TRANSFORM = {"P": lambda x, h: x / 1000, "M": lambda x, h: x * 1e10, "S": lambda x, h: x * h}


def raw_snapshot(seed, n, ties):
    r = np.random.default_rng(seed)
    m = 10 ** (r.integers(-40, 60, n) / (10.0 if ties else 10.0) + (0 if ties else r.uniform(0, 1, n)))
    if ties:
        m = 10 ** (r.integers(0, 4, n).astype(float))
    return {"P": r.uniform(0, 50000, (n, 3)), "M": m, "ID": r.permutation(n) + 100 * seed % 1000, "W": r.normal(size=(n, 3)), "S": r.uniform(0, 9, n), "R": r.uniform(0, 9, n)}


class Box(SimCatalogs):
    """What the documentation asks a new simulation to provide."""

    def __init__(self, path, snaps="all", mass_dtype="f", n=6):
        self.allsnaps = np.arange(n)
        super().__init__("_testbox", path, snaps, updatepath=False)
        self.basic_fields = {k: list(v) for k, v in BASIC.items()}
        self.basic_fields["M"] = [("mass", mass_dtype, "Msun/h", -1)]
        self.dm_fields = dict(DM)
        self.matter_fields = dict(MAT)
        self.transform_keys = dict(TRANSFORM)

    def _loader(self, path, snapshot, fields):
        d = np.load(os.path.join(path, f"s{snapshot}.npz"))
        n = len(d["M"])
        return ({k: d[k] for k in fields} if n else {}), n

    def _get_rawsnapfiles(self, snapshot):
        return [f"s{snapshot}.npz"]


class Contained:
    """While it is on, nothing the code under test deletes lies outside
    `folder`; a wish to do so is a violation.  Shell commands are not run but
    interpreted (rm) here."""

    def __init__(self, folder, answers):
        self.folder = os.path.realpath(folder)
        self.answers = list(answers)
        self.asked = 0

    def inside(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        if not os.path.isabs(p) or not os.path.realpath(p).startswith(self.folder + os.sep):
            raise Violation(f"would delete {p!r}, which is not part of the simulation's folder")
        return p

    def system(self, cmd):
        toks = shlex.split(cmd)
        if not toks or toks[0] != "rm":
            raise Violation(f"would run the shell command {cmd!r}")
        for p in [x for x in toks[1:] if not x.startswith("-")]:
            self.inside(p)
            if os.path.isdir(p):
                self.real["rmtree"](p)
            elif os.path.exists(p):
                self.real["remove"](p)
        return 0

    def ask(self, *a):
        self.asked += 1
        if not self.answers:
            raise Violation("keeps asking after it was answered")
        return self.answers.pop(0)

    def __enter__(self):
        self.real = {"rmtree": shutil.rmtree, "remove": os.remove, "unlink": os.unlink, "rmdir": os.rmdir, "system": os.system, "input": builtins.input}
        r = self.real
        os.system = self.system
        builtins.input = self.ask

        def guard(fn):
            def g(p, *a, **k):
                if k.get("dir_fd") is None:
                    self.inside(p)
                return fn(p, *a, **k)
            return g
        os.remove = guard(r["remove"])
        os.unlink = guard(r["unlink"])
        os.rmdir = guard(r["rmdir"])

        def tree(p, *a, **k):
            self.inside(p)
            os.remove, os.unlink, os.rmdir = r["remove"], r["unlink"], r["rmdir"]
            try:
                return r["rmtree"](p, *a, **k)
            finally:
                os.remove, os.unlink, os.rmdir = guard(r["remove"]), guard(r["unlink"]), guard(r["rmdir"])
        shutil.rmtree = tree
        return self

    def __exit__(self, *a):
        r = self.real
        os.system, os.remove, os.unlink, os.rmdir, shutil.rmtree, builtins.input = r["system"], r["remove"], r["unlink"], r["rmdir"], r["rmtree"], r["input"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    ops = []
    for i in range(draw(st.integers(1, 5))):
        op = "format" if i == 0 else draw(st.sampled_from(["format", "format", "format", "raw", "user", "clean"]))
        o = {"op": op}
        if op == "format":
            o.update(snaps=draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=3))), remake=draw(st.integers(0, 3)) == 0, overwrite=draw(st.booleans()),
                     basic=draw(st.integers(0, 3)) == 0, clean=draw(st.integers(0, 5)) == 0, answer=draw(st.sampled_from(["y", "n", "maybe", None])))
        elif op == "raw":
            o.update(s=draw(st.integers(0, n - 1)), n=draw(st.integers(0, 8)), seed=draw(SEED))
        elif op == "clean":
            o.update(answer=draw(st.sampled_from(["y", "n"])))
        ops.append(o)
    return {"raw": [[draw(SEED), draw(st.sampled_from([0, 1, 2, 5, 9, 30])), draw(st.booleans())] for _ in range(n)], "h": draw(st.sampled_from(hand.HS)),
            "mass": draw(st.sampled_from(["f", "f8"])), "dir": draw(st.sampled_from(["sim", "sim", "a sim", "x;y"])), "ops": ops}


def compare(t, g, want, h, mass_dtype, full, what):
    """One snapshot group against the raw objects."""
    names = ["pos_x", "pos_y", "pos_z", "mass"] + (["id", "wx", "wz", "stars", "rate"] if full else [])
    have = sorted(k for k in g if k not in ("mass_cuts", "user"))
    t.check(have == sorted(names), f"{what}: fields {have}, expected {sorted(names)}")
    n = len(want["M"])
    exp = {"pos_x": want["P"][:, 0] / 1000, "pos_y": want["P"][:, 1] / 1000, "pos_z": want["P"][:, 2] / 1000, "mass": want["M"] * 1e10,
           "id": want["ID"], "wx": want["W"][:, 0], "wz": want["W"][:, 2], "stars": want["S"] * h, "rate": want["R"]}
    got = {k: np.asarray(g[k][:]) for k in names}
    for k in names:
        t.check(got[k].size == n, f"{what}: {k} has {got[k].size} values for {n} objects")
        t.check(n == 0 or got[k].ndim == 1, f"{what}: {k} has shape {got[k].shape}")
    mass = got["mass"].reshape(-1)
    t.check(np.all(np.diff(mass) <= 0), f"{what}: masses are not in decreasing order")
    # pair rows with objects by position (all distinct)
    a = np.lexsort([exp["pos_z"].astype("f4"), exp["pos_y"].astype("f4"), exp["pos_x"].astype("f4")])
    b = np.lexsort([got["pos_z"].reshape(-1), got["pos_y"].reshape(-1), got["pos_x"].reshape(-1)])
    for k in names:
        t.close(got[k].reshape(-1)[b].astype(float), exp[k][a].astype(float), f"{what}: {k} (rows paired by position)", rtol=1e-6)
    for lst in (BASIC, DM, MAT):
        for v in lst.values():
            for nm, _, unit, dep in v:
                if nm in names:
                    t.check(g[nm].attrs["units"] == unit and g[nm].attrs["h dependence"] == dep, f"{what}: {nm} is declared {g[nm].attrs['units']} h^{g[nm].attrs['h dependence']}, expected {unit} h^{dep}")
    mc = g["mass_cuts"][:]
    for row in mc:
        x = float(row["min_mass"])
        hi, lo = int(np.sum(mass >= x)), int(np.sum(mass >= x * (1 - 1e-6)))
        t.check(hi <= int(row["index"]) <= lo, f"{what}: the mass index lists {int(row['index'])} objects above {x:.6g}, there are {hi}")
    t.check(np.all(np.diff(mc["min_mass"]) < 0), f"{what}: the mass index is not in decreasing order")


def formatting(case, t):
    h = case["h"]
    folder = os.path.join(t.scratch, case["dir"])
    os.makedirs(os.path.join(folder, "raw"))
    bystander = os.path.join(t.scratch, "a")  # what an unquoted "a sim" would hit
    open(bystander, "w").close()
    n = len(case["raw"])
    raw = {i: raw_snapshot(s, k, ties) for i, (s, k, ties) in enumerate(case["raw"])}

    def store(i):
        np.savez(os.path.join(folder, "raw", f"s{i}.npz"), **raw[i])
    for i in raw:
        store(i)
    cosmo = hand.cosmology(h)
    table = hand.snap_table(cosmo, list(range(n)), [0.3 * (n - i) for i in range(n)])
    np.save(os.path.join(folder, "meta.npy"), {"name": "_testbox", "number_snaps": n, "cosmo_name": "x", "cosmo_omega_matter": 0.3, "cosmo_omega_lambda": 0.7, "cosmo_omega_baryon": 0.05, "cosmo_h": h, "box_edge": 50.0})
    np.save(os.path.join(folder, "meta_snaps.npy"), table)
    path = os.path.join(folder, "data.hdf5")
    rawdir = os.path.join(folder, "raw")
    done = {}  # snapshot -> raw content it was formatted from
    full = True
    user = set()
    missing = set()
    rich = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s, o in enumerate(case["ops"]):
            op = o["op"]
            what = f"step {s} ({ {k: v for k, v in o.items() if k != 'seed'} })"
            if op == "raw":
                raw[o["s"]] = raw_snapshot(o["seed"], o["n"], False)
                if os.path.isdir(rawdir):
                    store(o["s"])
                    missing.discard(o["s"])
                continue
            if op == "user":
                if done and user.isdisjoint(done):
                    i = sorted(done)[0]
                    hand.register(folder)
                    sn = SimHandler("_testbox", in_h_units=True).get_snap(i)
                    sn.make_property(Prop("user", lambda mass: np.arange(len(mass)) * 2.0, ["mass"]), write_to_disk=True)
                    user.add(i)
            elif op == "clean":
                if not os.path.isdir(rawdir):
                    continue
                box = Box(folder, mass_dtype=case["mass"], n=n)
                with Contained(folder, [o["answer"]]):
                    box.clean_raw()
                gone = not os.path.exists(rawdir)
                t.check(gone == (o["answer"] == "y"), f"{what}: raw data {'deleted' if gone else 'kept'} although the answer was {o['answer']!r}")
                if gone:
                    missing = set(range(n))
                    t.label("raw data deleted")
            else:
                todo_req = sorted(set(range(n) if o["snaps"] is None else o["snaps"]))
                fresh = o["remake"] or not done
                todo = todo_req if fresh else [i for i in todo_req if i not in done] + ([i for i in todo_req if i in done] if o["overwrite"] else [])
                if set(todo) & missing:
                    continue
                answers = [] if not o["clean"] or o["answer"] is None else (["what?", "y"] if o["answer"] == "maybe" else [o["answer"]])
                box = Box(folder, snaps="all" if o["snaps"] is None else o["snaps"], mass_dtype=case["mass"], n=n)
                with Contained(folder, answers):
                    box.format(remake=o["remake"], overwrite=o["overwrite"], basic=o["basic"], realtime_clean_raw=o["clean"], realtime_clean_raw_check=o["answer"] is not None)
                if not (o["clean"] and o["answer"] == "n"):
                    if fresh:
                        done, user, full = {}, set(), not o["basic"]
                    for i in todo:
                        done[i] = raw[i]
                        user.discard(i)
                        rich += len(raw[i]["M"]) > 1
                        if o["clean"]:
                            missing.add(i)
                    if s and todo:
                        t.label("reformatted" if fresh else "appended or replaced")
                if os.path.isdir(rawdir):
                    left = sorted(os.listdir(rawdir))
                    want = sorted(f"s{i}.npz" for i in range(n) if i not in missing)
                    t.check(left == want, f"{what}: raw files left {left}, expected {want}")
            t.check(os.path.exists(bystander), f"{what}: a file outside the simulation's folder is gone")
            if not done and not os.path.exists(path):
                continue
            with h5py.File(path, "r") as f:
                groups = sorted(k for k in f)
                t.check(groups == sorted(f"Snapshot {i}" for i in done), f"{what}: the file holds {groups}, expected snapshots {sorted(done)}")
                for i, w in done.items():
                    compare(t, f[f"Snapshot {i}"], w, h, case["mass"], full, f"{what}: snapshot {i}")
                    t.check(("user" in f[f"Snapshot {i}"]) == (i in user), f"{what}: property added by the user to snapshot {i}")
                    if i in user:
                        t.close(f[f"Snapshot {i}"]["user"][:], np.arange(len(w["M"])) * 2.0, f"{what}: property added by the user", rtol=0)
                t.check(float(f.attrs["cosmo_h"]) == h and float(f.attrs["box_edge"]) == 50.0, f"{what}: metadata of the file")
                sm = f.attrs["snapshots"]
                t.check(set(done) <= set(int(x) for x in sm["index"]) and len(sm) == len(set(sm["index"])), f"{what}: snapshots listed {list(sm['index'])}, formatted {sorted(done)}")
                for i in done:
                    t.close(float(sm["redshift"][sm["index"] == i][0]), float(table["redshift"][table["index"] == i][0]), f"{what}: redshift of snapshot {i}", rtol=1e-6)
        if done:
            hand.register(folder)
            sim = SimHandler("_testbox", in_h_units=True)
            for i, w in done.items():
                sn = sim.get_snap(i)
                m = np.sort(w["M"] * 1e10)[::-1]
                t.close(sn.return_property("mass"), m, f"masses of snapshot {i} through the handler", rtol=1e-6)
                for x in [1e6, 3.3e10, 1e12] + [float(v) for v in m[:3]]:
                    k = int(sim.get_mass_index(x * (1 + 1e-6), i))
                    t.check(k >= int(np.sum(m >= x * (1 + 2e-6))), f"mass index of {x:.6g} in snapshot {i}: {k} objects, {int(np.sum(m >= x))} are as massive")
    t.nontrivial(rich >= 1 and len(case["ops"]) > 1)


# ------------------------------------------------------------------ the simulations it ships with
def tng_table(sim):
    """raw field -> (output names, factor to the declared unit, h power); after
    the public data release's field tables."""
    m, d = 1e10, 1e-3
    T = {"SubhaloPos": (["pos_x", "pos_y", "pos_z"], d, -1), "SubhaloHalfmassRad": (["r_hm"], d, -1), "SubhaloMass": (["mass"], m, -1), "SubhaloVel": (["v_x", "v_y", "v_z"], 1, 0),
         "SubhaloCM": (["cm_x", "cm_y", "cm_z"], d, -1), "SubhaloSpin": (["spin_x", "spin_y", "spin_z"], d, -1), "SubhaloVelDisp": (["vdisp"], 1, 0), "SubhaloVmax": (["vmax"], 1, 0),
         "SubhaloVmaxRad": (["r_vmax"], d, -1), "SubhaloMassInMaxRad": (["mass_maxr"], m, -1)}
    if not sim.endswith("Dark"):
        def types(s):
            return [f"m_gas{s}", f"m_dm{s}", None, f"m_tracers{s}", f"m_stars_wind{s}", f"m_bh{s}"]
        T.update({"SubhaloBHMass": (["bhmass"], m, -1), "SubhaloBHMdot": (["bhmdot"], 1e10 / 0.978, 0), "SubhaloGasMetallicity": (["met"], 1, 0), "SubhaloGasMetallicityHalfRad": (["met_hr"], 1, 0),
                  "SubhaloGasMetallicityMaxRad": (["met_maxr"], 1, 0), "SubhaloMassType": (types(""), m, -1), "SubhaloMassInHalfRad": (["mass_hr"], m, -1), "SubhaloMassInHalfRadType": (types("_hr"), m, -1),
                  "SubhaloMassInMaxRadType": (types("_maxr"), m, -1), "SubhaloMassInRad": (["mass_2hr"], m, -1), "SubhaloMassInRadType": (types("_2hr"), m, -1), "SubhaloSFR": (["sfr"], 1, 0),
                  "SubhaloSFRinHalfRad": (["sfr_hr"], 1, 0), "SubhaloSFRinRad": (["sfr_2hr"], 1, 0), "SubhaloSFRinMaxRad": (["sfr_maxr"], 1, 0), "SubhaloStarMetallicity": (["met_stellar"], 1, 0),
                  "SubhaloStarMetallicityHalfRad": (["met_stellar_hr"], 1, 0), "SubhaloStarMetallicityMaxRad": (["met_stellar_maxr"], 1, 0),
                  "SubhaloStellarPhotometrics": ([f"phot_{b}" for b in "UBVKgriz"], 1, 0)})
        if sim.startswith("TNG"):
            T["SubhaloFlag"] = (["flag"], 1, 0)
            for s, r in (("", ""), ("_hr", "HalfRad"), ("_maxr", "MaxRad")):
                T["SubhaloGasMetalFractions" + r] = ([f"met{e}{s}" for e in ["H", "He", "C", "N", "O", "Ne", "Mg", "Si", "Fe", "Other"]], 1, 0)
    return T


UM_COMMON = {"id": ("halo_id", 1, 0), "descid": ("descendent_id", 1, 0), "upid": ("parent_id", 1, 0), "v": ("vmax", 1, 0), "vmp": ("vmax_peak", 1, 0), "r": ("r", 1e-3, -1),
             "rank1": ("Rank1", 1, 0), "sm": ("m_stars", "h", -1), "icl": ("icl", "h", -1), "sfr": ("sfr", 1, 0), "obs_sm": ("m_stars_obs", "h", -1), "obs_sfr": ("sfr_obs", 1, 0), "obs_uv": ("phot_uv_obs", 1, 0)}
ASCII = ["id", "descid", "upid", "flags", "uparent_dist", "x", "y", "z", "vx", "vy", "vz", "m", "v", "mp", "vmp", "r", "rank1", "rank2", "ra", "rarank", "sm", "icl", "sfr", "obs_sm", "obs_sfr", "obs_ssfr", "smhm", "obs_uv"]
INTS = {"id", "descid", "upid", "flags", "desc_id"}
BINDT = np.dtype([("id", "i8"), ("descid", "i8"), ("upid", "i8"), ("flags", "i4"), ("uparent_dist", "f4"), ("pos", "f4", (6,)), ("vmp", "f4"), ("lvmp", "f4"), ("mp", "f4"), ("m", "f4"), ("v", "f4"), ("r", "f4"),
                  ("rank1", "f4"), ("rank2", "f4"), ("ra", "f4"), ("rarank", "f4"), ("a_uv", "f4"), ("sm", "f4"), ("icl", "f4"), ("sfr", "f4"), ("obs_sm", "f4"), ("obs_sfr", "f4"), ("obs_uv", "f4"), ("empty", "f4")], align=True)


def um_ascii(case, folder, h, box):
    """Writes the raw files, returns {snapshot: {output: (values, h power)}}."""
    out = {}
    files = np.array([f"sfr_catalog_{0.2 + 0.1 * i:.6f}.txt" for i in range(len(case["ns"]))])
    np.save(os.path.join(folder, "web_paths.npy"), files)
    for i, n in enumerate(case["ns"]):
        r = np.random.default_rng(case["seed"] + i)
        d = {k: (r.integers(-1, 10**6, n) if k in INTS else np.round(r.uniform(0.1, 90, n), 4)) for k in ASCII}
        d["m"] = np.round(10 ** r.uniform(8, 14, n), 1)
        with open(os.path.join(folder, "raw", files[i]), "w") as f:
            f.write("#" + " ".join(ASCII) + "\n#comment\n")
            for j in range(n):
                f.write(" ".join(str(int(d[k][j])) if k in INTS else repr(float(d[k][j])) for k in ASCII) + "\n")
        e = {o: (d[k] * (h if fac == "h" else fac), dep) for k, (o, fac, dep) in UM_COMMON.items()}
        e.update({"pos_x": (d["x"], -1), "pos_y": (d["y"], -1), "pos_z": (d["z"], -1), "v_x": (d["vx"], 0), "v_y": (d["vy"], 0), "v_z": (d["vz"], 0), "mass": (d["m"] * h, -1),
                  "mass_peak": (d["mp"] * h, -1), "ssfr_obs": (d["obs_ssfr"], 0), "stellar_to_halo_mass_ratio": (d["smhm"], 0)})
        out[i] = e
    return out


def um_bin(case, folder, h, box):
    out = {}
    files = np.array([f"sfr_catalog_{0.2 + 0.1 * i:.6f}.bin" for i in range(len(case["ns"]))])
    np.save(os.path.join(folder, "web_paths.npy"), files)
    for i, n in enumerate(case["ns"]):
        r = np.random.default_rng(case["seed"] + i)
        d = np.zeros(n, BINDT)
        for k in BINDT.names:
            d[k] = r.integers(-1, 10**6, n) if k in INTS else r.uniform(0.1, 90, d[k].shape)
        d["flags"] = r.integers(0, 32, n)
        d["m"] = 10 ** r.uniform(8, 14, n)
        d["pos"][:, :3] = r.uniform(-2, box + 2, (n, 3))
        d.tofile(os.path.join(folder, "raw", files[i]))
        d = d[(d["flags"] // 16) % 2 == 0]  # orphans that were merged away
        e = {o: (d[k] * (h if fac == "h" else fac), dep) for k, (o, fac, dep) in UM_COMMON.items()}
        p = d["pos"].astype(float)
        e.update({"pos_x": (p[:, 0] % box, -1), "pos_y": (p[:, 1] % box, -1), "pos_z": (p[:, 2] % box, -1), "v_x": (p[:, 3], 0), "v_y": (p[:, 4], 0), "v_z": (p[:, 5], 0), "mass": (d["m"], -1),
                  "mass_peak": (d["mp"], -1), "uv_attenuation": (d["a_uv"], 0)})
        out[i] = e
    return out


UCHUU = {"id": (1, "halo_id", 1, 0), "upid": (1, "parent_id", 1, 0), "Mvir": (1, "mass", 1, -1), "sm": (1, "m_stars", "h", -1), "icl": (1, "icl", "h", -1), "sfr": (1, "sfr", 1, 0), "obs_sm": (1, "m_stars_obs", "h", -1),
         "obs_sfr": (1, "sfr_obs", 1, 0), "obs_uv": (1, "phot_uv_obs", 1, 0), "x": (2, "pos_x", 1, -1), "y": (2, "pos_y", 1, -1), "z": (2, "pos_z", 1, -1), "desc_id": (3, "descendent_id", 1, 0), "vx": (3, "v_x", 1, 0),
         "vy": (3, "v_y", 1, 0), "vz": (3, "v_z", 1, 0), "Mpeak": (3, "mass_peak", 1, -1), "Vmax_Mpeak": (3, "vmax_peak", 1, 0), "vmax": (3, "vmax", 1, 0), "A_UV": (3, "uv_attenuation", 1, 0)}


def uchuu(case, folder, h, box):
    out = {}
    k = len(case["ns"])
    files = np.array([f"Uchuu_UM_z{k - i}p{25 * (i % 4):02d}_data1.h5" for i in range(k)])
    np.save(os.path.join(folder, "web_paths.npy"), files)
    for i, n in enumerate(case["ns"]):
        r = np.random.default_rng(case["seed"] + i)
        d = {q: (r.integers(-1, 10**6, n) if q in INTS else r.uniform(0.1, 90, n)) for q in UCHUU}
        d["Mvir"] = 10 ** r.uniform(8, 14, n)
        for df in (1, 2, 3):
            with h5py.File(os.path.join(folder, "raw", files[i].replace("data1", f"data{df}")), "w") as f:
                for q, v in UCHUU.items():
                    if v[0] == df:
                        f[q] = d[q]
        out[i] = {o: (d[q] * (h if fac == "h" else fac), dep) for q, (_, o, fac, dep) in UCHUU.items()}
    return out


def tng(case, folder, h, box):
    out = {}
    T = tng_table(case["sim"])
    stem = "groups" if case["sim"].startswith("Ill") else "fof_subhalo_tab"
    for i, n in enumerate(case["ns"]):
        r = np.random.default_rng(case["seed"] + i)
        d = {}
        for q, (outs, fac, dep) in T.items():
            shape = (n,) if len(outs) == 1 else (n, len(outs))
            d[q] = r.integers(0, 2, shape).astype("i8") if q == "SubhaloFlag" else r.uniform(0.1, 90, shape).astype("f4")
        d["SubhaloMass"] = (10 ** r.uniform(-2, 4, n)).astype("f4")
        chunks = case["chunks"]
        cuts = [0] + sorted(int(x) for x in r.integers(min(1, n), n + 1, chunks - 1)) + [n]
        g = os.path.join(folder, "raw", f"groups_{i:03d}")
        os.makedirs(g)
        for c in range(chunks):
            with h5py.File(os.path.join(g, f"{stem}_{i:03d}.{c}.hdf5"), "w") as f:
                a, b = cuts[c], cuts[c + 1]
                hd = f.create_group("Header")
                hd.attrs["Nsubgroups_Total"] = n
                hd.attrs["Nsubgroups_ThisFile"] = b - a
                hd.attrs["NumFiles"] = chunks
                sub = f.create_group("Subhalo")
                if b > a:
                    for q, v in d.items():
                        sub[q] = v[a:b]
        e = {}
        for q, (outs, fac, dep) in T.items():
            v = d[q].reshape(n, len(outs)).astype(float) * fac
            for j, o in enumerate(outs):
                if o:
                    e[o] = (v[:, j], dep)
        out[i] = e
    return out


SIMS = {"UniverseMachine-BolshoiPlanck": (UniversemachineCatalogs, um_ascii), "UniverseMachine-SMDPL": (UniversemachineCatalogs, um_bin), "UniverseMachine-MDPL2": (UniversemachineCatalogs, um_bin),
        "UniverseMachine-uchuu": (UchuuCatalogs, uchuu), "TNG100-1": (IllustrisCatalogs, tng), "TNG300-3-Dark": (IllustrisCatalogs, tng), "Illustris-1": (IllustrisCatalogs, tng), "Illustris-2-Dark": (IllustrisCatalogs, tng)}


@st.composite
def shipcases(draw):
    return {"sim": draw(st.sampled_from(sorted(SIMS))), "ns": draw(st.lists(st.sampled_from([0, 1, 2, 5, 12]), min_size=1, max_size=3)), "seed": draw(SEED), "h": draw(st.sampled_from(hand.HS)), "chunks": draw(st.integers(1, 3)),
            "basic": draw(st.integers(0, 4)) == 0, "twice": draw(st.booleans()), "clean": draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=3, max_size=3))), "more": draw(st.lists(st.integers(4, 12), max_size=9, unique=True))}


def shipped(case, t):
    cls, maker = SIMS[case["sim"]]
    h, box = case["h"], 100.0
    folder = os.path.join(t.scratch, "sim")
    os.makedirs(os.path.join(folder, "raw"))
    k = len(case["ns"])
    table = hand.snap_table(hand.cosmology(h), list(range(k)), [0.5 * (k - i) for i in range(k)])
    np.save(os.path.join(folder, "meta.npy"), {"name": case["sim"], "number_snaps": k, "cosmo_name": "x", "cosmo_omega_matter": 0.3, "cosmo_omega_lambda": 0.7, "cosmo_omega_baryon": 0.05, "cosmo_h": h, "box_edge": box})
    np.save(os.path.join(folder, "meta_snaps.npy"), table)
    want = maker(case, folder, h, box)
    args = (case["sim"], "key") if cls is IllustrisCatalogs else (case["sim"],)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cat = cls(*args, path=folder, snaps=list(range(k)), updatepath=False)
        cat.format(basic=case["basic"])
        if case["twice"]:
            cls(*args, path=folder, snaps=list(range(k)), updatepath=False).format(overwrite=True)
        hand.register(folder, case["sim"])
        sim = SimHandler(case["sim"], in_h_units=True)
        basic = {o for v in cat.basic_fields.values() for o, *_ in v}
        for i, e in want.items():
            sn = sim.get_snap(i)
            n = len(e["mass"][0])
            tag = f"{case['sim']} snapshot {i} of {n} objects"
            keys = sorted(sn.extract_keys())
            names = sorted(x for x in e if not case["basic"] or x in basic)
            t.check(keys == names, f"{tag}: fields {sorted(set(keys) ^ set(names))} missing or not expected")
            t.check(sn.nhalos_all == n, f"{tag}: {sn.nhalos_all} rows")
            got = {x: np.asarray(sn.return_property(x)).reshape(-1) for x in names}
            for x in names:
                t.check(len(got[x]) == n, f"{tag}: {x} has {len(got[x])} values")
            t.check(np.all(np.diff(got["mass"]) <= 0), f"{tag}: not in order of decreasing mass")
            a = np.argsort(e["v_x"][0].astype("f4"))
            b = np.argsort(got["v_x"])
            for x in names:
                v, dep = e[x]
                t.close(got[x][b].astype(float), v[a].astype(float), f"{tag}: {x}", rtol=2e-6, atol=2e-5 if x.startswith("pos") else 0)
                t.check(sn.properties_h_dependence[x] == dep, f"{tag}: {x} is declared to scale with h^{sn.properties_h_dependence[x]}, expected h^{dep}")
                u = str(sn.properties_units[x])
                ok = {"pos": "Mpc/h", "cm_": "Mpc/h", "r": "Mpc/h", "r_": "Mpc/h", "m_": "Msun/h", "mas": "Msun/h", "v_": "km/s", "vma": "km/s"}
                for pre, unit in ok.items():
                    if (x == pre or (len(pre) > 1 and x.startswith(pre))) and not x.startswith("met"):
                        t.check(u == unit, f"{tag}: {x} is declared in {u}, its values are in {unit}")
        if case.get("clean") and any(case["clean"][:k]):
            raw = os.path.join(folder, "raw")
            chosen = [i for i in range(k) if case["clean"][i]]
            own = [f for d, _, fs in os.walk(raw) for f in [os.path.relpath(os.path.join(d, f), raw) for f in fs]]
            if "uchuu" in case["sim"]:
                for f in [f for f in own if "data1" in f]:
                    for d in case["more"]:
                        open(os.path.join(raw, f.replace("data1", f"data{d}")), "w").close()
                        own.append(f.replace("data1", f"data{d}"))
            open(os.path.join(raw, "notes.txt"), "w").close()
            if cls is IllustrisCatalogs:
                of = {f: int(f[7:10]) for f in own}
            else:
                stems = [str(x).split("_data")[0] for x in np.load(os.path.join(folder, "web_paths.npy"))]
                of = {f: stems.index(f.split("_data")[0]) for f in own}
            cls(*args, path=folder, snaps=chosen, updatepath=False).format(overwrite=True, realtime_clean_raw=True, realtime_clean_raw_check=False)
            left = sorted(os.path.relpath(os.path.join(d, f), raw) for d, _, fs in os.walk(raw) for f in fs)
            expect = sorted([f for f in own if of[f] not in chosen] + ["notes.txt"])
            t.check(left == expect, f"{case['sim']}: raw data {left} left after formatting snapshots {chosen} of {k} with cleaning up, expected {expect}")
            t.label("cleaned")
    t.label(case["sim"])
    t.nontrivial(max(case["ns"]) > 1)


CHECKS = [Check("format", cases(), formatting, quick=1200, thorough=16000), Check("shipped", shipcases(), shipped, quick=320, thorough=4000)]
