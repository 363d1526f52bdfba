"""P19: snapshots tile cosmic time; every redshift belongs to one of them."""
import json
import os
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED
from vlib import hand
import simim.siminterface.illustris as illmod
from simim.siminterface import IllustrisCatalogs, SimHandler, UchuuCatalogs, UniversemachineCatalogs

FIXED = {"UniverseMachine-BolshoiPlanck": (250, 0.307, 0.048, 0.678, "txt"), "UniverseMachine-SMDPL": (400, 0.307, 0.048, 0.678, "bin"), "UniverseMachine-MDPL2": (1000, 0.307, 0.048, 0.678, "bin"),
         "UniverseMachine-uchuu": (2000, 0.3089, 0.0486, 0.6775, None)}


@st.composite
def cases(draw):
    sim = draw(st.sampled_from(sorted(FIXED) + ["TNG100-1", "TNG300-2-Dark", "Illustris-1", "Illustris-3-Dark"]))
    n = draw(st.integers(1, 8))
    # redshifts, lowest first, in steps of 1/100
    lo = draw(st.sampled_from([0, 0, 1, 3, 20, 150]))
    steps = draw(st.lists(st.one_of(st.integers(1, 5), st.integers(5, 300)), min_size=n - 1, max_size=n - 1))
    zs = list(np.cumsum([lo] + steps) / 100.0)
    if zs[-1] == 0:
        zs[-1] = 0.5
    return {"sim": sim, "zs": [float(z) for z in zs], "keep": draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))), "order": draw(st.permutations(range(n))),
            "cosmo": [draw(st.sampled_from(hand.HS)), draw(st.sampled_from([0.2, 0.3089, 0.9])), draw(st.sampled_from([0.04, 0.0486]))], "gap": draw(st.integers(1, 3)), "first": draw(st.integers(0, 5)), "seed": draw(SEED),
            "at": draw(st.lists(st.floats(0, 1), min_size=1, max_size=12)), "picks": draw(st.one_of(st.none(), st.lists(st.integers(0, 7), max_size=5))), "init": draw(st.booleans()), "in_h": draw(st.booleans()), "box": draw(st.sampled_from([75000.0, 106500.0])),
            "tiny": draw(st.booleans())}


class Response:
    def __init__(self, data):
        self.data = json.dumps(data)

    def raise_for_status(self):
        pass

    def json(self):
        return json.loads(self.data)


def get_metadata(case, folder):
    """Runs the real download_meta; returns (catalogs, {number: redshift}, h, Om, Ob, box, the way back)."""
    sim = case["sim"]
    zs = case["zs"][::-1]  # earliest first
    n = len(zs)
    os.makedirs(os.path.join(folder, "raw"), exist_ok=True)
    if sim in FIXED:
        box, om, ob, h, ext = FIXED[sim]
        if ext:
            files = [f"sfr_catalog_{1 / (1 + z):.6f}.{ext}" for z in zs]
            truth = {i: 1 / float(f.split("_")[2][:-4]) - 1 for i, f in enumerate(files)}
            cls = UniversemachineCatalogs
        else:
            files = [f"Uchuu_UM_z{int(round(z * 100)) // 100}p{int(round(z * 100)) % 100:02d}_data1.h5" for z in zs]
            truth = dict(enumerate(zs))
            cls = UchuuCatalogs
        np.save(os.path.join(folder, "web_paths.npy"), np.array(files))
        numbers = list(range(n))
        make = lambda snaps: cls(sim, path=folder, snaps=snaps, updatepath=False)
        undo = lambda: None
    else:
        h, om, ob = case["cosmo"]
        box = case["box"] / 1000
        numbers = [case["first"] + i * case["gap"] for i in range(n)]
        truth = dict(zip(numbers, zs))
        if case["tiny"] and zs[-1] == 0:
            truth[numbers[-1]] = 2.220446049250313e-16  # as the service reports it
        meta = {"name": sim, "boxsize": case["box"], "num_snapshots": n, "cosmology": "X", "omega_0": om, "omega_L": 1 - om, "omega_B": ob, "hubble": h, "num_files_groupcat": 3}
        snaps = [{"number": numbers[i], "redshift": truth[numbers[i]]} for i in case["order"]]
        old = illmod.requests.get

        def get(url, *a, **k):
            assert sim in url
            return Response(snaps if url.rstrip("/").endswith("snapshots") else meta)
        illmod.requests.get = get

        def undo():
            illmod.requests.get = old
        make = lambda s: IllustrisCatalogs(sim, "key", path=folder, snaps=s, updatepath=False)
    try:
        keep = numbers if case["keep"] is None else [numbers[i] for i in case["keep"]]
        if max(truth[i] for i in keep) < 0.005:
            keep = numbers
        cat = make("all" if keep == numbers and sim not in FIXED and case["first"] % 2 else keep)
        cat.download_meta()
        before = open(cat.snap_meta_path, "rb").read()
        again = make([numbers[0]])
        again.download_meta()
        same = open(cat.snap_meta_path, "rb").read() == before
    finally:
        undo()
    return cat, again, same, {i: truth[i] for i in keep}, (h, om, ob, box)


def tiling(case, t):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        folder = os.path.join(t.scratch, "sim")
        cat, again, same, truth, (h, om, ob, box) = get_metadata(case, folder)
        m = cat.snap_meta
        what = f"{case['sim']}, snapshots at {truth}"
        t.check(same, f"{what}: metadata asked for again without redownload changed what was stored")
        t.check(cat.metadata["cosmo_h"] == h and cat.metadata["box_edge"] == box and cat.metadata["cosmo_omega_matter"] == om and cat.metadata["cosmo_omega_baryon"] == ob, f"{what}: simulation metadata {cat.metadata}")
        t.check(again.h == h and again.box_edge == box and np.array_equal(again.snap_meta, m), f"{what}: metadata read back differ")
        t.check(sorted(int(i) for i in m["index"]) == sorted(truth), f"{what}: snapshots listed {list(m['index'])}")
        C = hand.cosmology(h, om, ob)
        F = dict(rtol=3e-6, atol=3e-6)
        s = np.sort(m, order="redshift")
        for r in s:
            t.close(float(r["redshift"]), truth[int(r["index"])], f"{what}: redshift of snapshot {r['index']}", **F)
        edges = [0.0]
        for a, b in zip(s[:-1], s[1:]):
            for up, low in (("redshift_max", "redshift_min"), ("time_start", "time_end"), ("distance_max", "distance_min"), ("transverse_distance_max", "transverse_distance_min")):
                t.check(a[up] == b[low], f"{what}: snapshot {a['index']} ends at {up} {a[up]}, snapshot {b['index']} starts at {b[low]}")
            mid = (C.age(truth[int(a["index"])]).value + C.age(truth[int(b["index"])]).value) / 2
            t.close(float(a["time_start"]), mid, f"{what}: age at the boundary of snapshots {a['index']} and {b['index']}", rtol=1e-6)
            t.close(C.age(float(a["redshift_max"])).value, mid, f"{what}: age at the boundary redshift of snapshots {a['index']} and {b['index']}", rtol=2e-5)
            edges.append(float(a["redshift_max"]))
        edges.append(float(s[-1]["redshift"]))
        t.check(s[0]["redshift_min"] == 0 and s[0]["distance_min"] == 0 and s[0]["transverse_distance_min"] == 0, f"{what}: the latest snapshot starts at {s[0]}")
        t.check(s[-1]["redshift_max"] == s[-1]["redshift"], f"{what}: the earliest snapshot ends at redshift {s[-1]['redshift_max']}")
        for r, lo, hi in zip(s, edges[:-1], edges[1:]):
            t.check(lo <= r["redshift"] <= hi and lo < hi, f"{what}: snapshot {r['index']} covers redshift {lo} to {hi}")
            for z, d, tr, tm in ((lo, "distance_min", "transverse_distance_min", "time_end"), (hi, "distance_max", "transverse_distance_max", "time_start")):
                D = C.comoving_distance(z).value * h
                t.close(float(r[d]), D, f"{what}: {d} of snapshot {r['index']} (Mpc/h)", rtol=1e-5, atol=1e-3)
                t.close(float(r[tr]), D, f"{what}: {tr} of snapshot {r['index']} (Mpc/h)", rtol=1e-5, atol=1e-3)
                t.close(float(r[tm]), C.age(z).value, f"{what}: {tm} of snapshot {r['index']}", rtol=2e-5)
        # and through the handler
        cats = {i: hand.catalog(case["seed"] + i, 1 + (k * 3) % 5, ["mass", "pos_x", "vel"]) for k, i in enumerate(sorted(truth))}
        for i, c in cats.items():
            c["vel"][:] = i + 0.25
        out = os.path.join(t.scratch, "out")
        hand.write_sim(out, h, om, ob, box, m, cats)
        hand.register(out)
        sim = SimHandler("_testbox", init_snaps=case["init"], in_h_units=case["in_h"])
        top = edges[-1]
        for x in case["at"]:
            z = x * top
            owner = [int(r["index"]) for r, lo, hi in zip(s, edges[:-1], edges[1:]) if lo <= z <= hi]
            got = int(sim.z_to_snap(z))
            t.check(got in owner, f"{what}: redshift {z} belongs to snapshot {owner}, got {got}")
            t.close(np.unique(sim.get_snap_from_z(z).return_property("vel")), [got + 0.25], f"{what}: catalog of the snapshot at redshift {z}", rtol=0)
        for r, lo, hi in zip(s, edges[:-1], edges[1:]):
            for z in (float(r["redshift"]), np.nextafter(lo, 99), np.nextafter(hi, 0), (lo + hi) / 2):
                t.check(int(sim.z_to_snap(z)) == int(r["index"]), f"{what}: redshift {z} belongs to snapshot {r['index']} ({lo} to {hi}), got {sim.z_to_snap(z)}")
            for z in (lo, hi):
                own = [int(q["index"]) for q, a, b in zip(s, edges[:-1], edges[1:]) if a <= z <= b]
                t.check(int(sim.z_to_snap(z)) in own, f"{what}: redshift {z} belongs to snapshot {own}, got {sim.z_to_snap(z)}")
            e = sim.extract_snap_meta(int(r["index"]))
            t.check(e == r, f"{what}: metadata of snapshot {r['index']}: {e}")
        for z in (-0.01, top * 1.001 + 0.01, 99.0):
            t.raises(lambda: sim.z_to_snap(z), f"{what}: redshift {z}, out of range")
        t.raises(lambda: sim.get_snap(999), f"{what}: snapshot 999")
        t.raises(lambda: sim.extract_snap_meta(999), f"{what}: metadata of snapshot 999")
        idx = [int(i) for i in m["index"]]
        snaps = None if case["picks"] is None else [idx[p % len(idx)] for p in case["picks"]]
        vals, zs = sim.snap_stat(lambda vel, scale: np.sum(vel) * scale, ["vel"], other_kws={"scale": 2.0}, snaps=snaps)
        want = idx if snaps is None else snaps
        t.close(np.array(vals, float), [2 * len(cats[i]["vel"]) * (i + 0.25) for i in want], f"{what}: statistic over snapshots {snaps}", rtol=1e-12)
        t.close(np.array(zs, float), [truth[i] for i in want], f"{what}: redshifts of the statistic over snapshots {snaps}", **F)
        t.raises(lambda: sim.snap_stat(lambda vel: 0, ["vel"], snaps=idx[:1] + [999]), f"{what}: statistic over snapshot 999")
    t.label(case["sim"], "snapshots:" + str(len(truth)))
    t.nontrivial(len(truth) > 1)


CHECKS = [Check("tiling", cases(), tiling, quick=960, thorough=8000)]
