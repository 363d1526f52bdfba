"""P21: gridding a snapshot or a light cone."""
import os
import warnings
import h5py
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, sizes
from vlib import hand
from simim.galprops import Prop
from simim.lightcone import LCHandler
from simim.siminterface import SnapHandler

VALS = ["mass", "vel", "vol", "rate", "tag", "count", "made"]
BOX = 50.0


@st.composite
def axis(draw, extent):
    """Limits and cell in units of 1/8: None (the default limits) or a range."""
    return {"lim": draw(st.one_of(st.none(), st.tuples(st.integers(-16, extent), st.integers(1, 12)))), "cell": draw(st.sampled_from([4, 8, 16, 20, 50])), "flip": draw(st.integers(0, 3)) == 0}


@st.composite
def base(draw):
    return {"n": draw(sizes(st.sampled_from([0, 1, 5, 20, 80, 80]))), "seed": draw(SEED), "h": draw(st.sampled_from(hand.HS)), "in_h": draw(st.booleans()), "way": draw(st.sampled_from([None, None, True, False])),
            "props": draw(st.lists(st.sampled_from(VALS), min_size=1, max_size=3, unique=True)), "sel": draw(st.one_of(st.none(), st.floats(0, 1))), "all": draw(st.booleans()), "ret": draw(st.booleans()),
            "norm": draw(st.sampled_from([None, None, "cell_volume", 2.5, 0.5])), "scalar": draw(st.booleans())}


@st.composite
def snapcases(draw):
    c = draw(base())
    c["axes"] = [draw(axis(draw(st.sampled_from([60, 380])))) for _ in range(3)]
    c["defaultres"] = draw(st.integers(0, 5)) == 0
    c["spread"] = draw(st.booleans())
    return c


def select(hd, cat, case, rng_name):
    """Restricts the handler by rank of a column; returns the mask."""
    mask = np.ones(len(cat["mass"]), bool)
    if case["sel"] is not None and mask.size:
        v = np.sort(np.unique(cat[rng_name].astype(float)))
        k = int(case["sel"] * len(v))
        if 0 < k < len(v):
            b = (v[k - 1] + v[k]) / 2
            hd.set_property_range(rng_name, pmin=b)
            mask = cat[rng_name].astype(float) >= b
    return mask


def made(hd, cat, case, h):
    """A property made on the fly: 3*vel + 1, declared to scale with h^-2."""
    p = Prop("made", lambda vel: 3 * vel + 1, ["vel"], h_dependence=-2, function_return_in_h_units=case["ret"], units="u")
    hd.make_property(p, use_all_inds=True)
    v = 3 * cat["vel"].astype(float) + 1
    return v if case["ret"] else v / h ** -2.0  # in h units


def reference(pos, values, lo, cell, n):
    """Sums by whole cells; positions are never on an edge.  All in h units."""
    out = np.zeros(tuple(n) + (values.shape[1],))
    k = np.floor((pos - np.array(lo)) / np.array(cell)).astype(int)
    inside = np.all((k >= 0) & (k < np.array(n)), axis=1)
    for i in np.nonzero(inside)[0]:
        out[tuple(k[i])] += values[i]
    return out, inside


def judge(t, g, want, inside, values, what):
    t.close(g.grid, want, f"{what}: grid", rtol=1e-5, atol=1e-9 * (np.max(np.abs(want)) if want.size else 0))
    t.check(g.n_properties == want.shape[-1], f"{what}: {g.n_properties} properties")
    if inside.any() and not inside.all():
        t.label("objects in and out of the limits")


def snapshot(case, t):
    h, n = case["h"], case["n"]
    r = np.random.default_rng(case["seed"])
    cat = hand.catalog(case["seed"], n, ["mass", "vel", "vol", "rate", "tag", "count"])
    hi = 400 if case["spread"] else 120
    for k in ("pos_x", "pos_y", "pos_z"):
        cat[k] = ((2 * r.integers(0, hi, n) + 1) / 16.0).astype(hand.STORED[k][0])
    path = os.path.join(t.scratch, "d.hdf5")
    with h5py.File(path, "w") as f:
        f.attrs["cosmo_h"] = h
        hand.write_group(f, "Snapshot 0", cat)
    hd = SnapHandler(path, 0, 1.0, hand.cosmology(h), BOX, in_h_units=case["in_h"])
    eff = case["in_h"] if case["way"] is None else case["way"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cat["made"] = made(hd, cat, case, h)
        mask = select(hd, cat, case, "tag" if case["norm"] else "vel")
        if case["all"]:
            mask[:] = True
        s = 1.0 if eff else 1.0 / h  # Mpc/h -> asked unit
        kw, lo, cell, num = {}, [], [], []
        for name, a in zip(("xlim", "ylim", "zlim"), case["axes"]):
            c = a["cell"] if not case["scalar"] else case["axes"][0]["cell"]
            if a["lim"] is None:
                L, m = 0.0, int(BOX * 8) // c
                width = BOX
            else:
                L, m = a["lim"][0] / 8.0, a["lim"][1]
                width = m * c / 8.0
                lim = (L * s, (L + width) * s)
                kw[name] = lim[::-1] if a["flip"] else lim
            if case["defaultres"]:
                m, c = 100, width / 100 * 8  # edges then only by chance clear of the objects
            lo.append(L)
            cell.append(c / 8.0)
            num.append(m)
        if not case["defaultres"]:
            kw["res"] = cell[0] * s if case["scalar"] else [c * s for c in cell]
        if case["way"] is not None:
            kw["in_h_units"] = case["way"]
        g = hd.grid(*case["props"], use_all_inds=case["all"], norm=case["norm"], **kw)
        what = f"grid of {case['props']} over {kw}, h={h}, default {'h' if case['in_h'] else 'physical'} units, norm {case['norm']}"
        t.check(list(g.n_pixels) == num, f"{what}: {list(g.n_pixels)} cells, expected {num}")
        t.close(np.array(g.pixel_size, float), np.array(cell) * s, f"{what}: cell sizes", rtol=1e-9)
        for i in range(3):
            t.close(g.axes_centers[i], (lo[i] + cell[i] * (np.arange(num[i]) + 0.5)) * s, f"{what}: cell centers on axis {i}", rtol=1e-9, atol=1e-9 * BOX)
        dep = {k: hand.STORED[k][2] for k in hand.STORED}
        dep["made"] = -2
        values = np.array([cat[p].astype(float) * (1 if eff else h ** float(dep[p])) for p in case["props"]]).T.reshape(n, len(case["props"]))[mask]
        pos = np.array([cat[k].astype(float) for k in ("pos_x", "pos_y", "pos_z")]).T.reshape(n, 3)[mask]
        f = 1.0 if case["norm"] is None else (1 / np.prod(np.array(cell) * s) if case["norm"] == "cell_volume" else case["norm"])
        frac = (pos - np.array(lo)) / np.array(cell)
        near = np.any(np.abs(frac - np.round(frac)) < 1e-6) if len(pos) else False
        want, inside = reference(pos, values, lo, cell, num)
        t.close(g.grid.sum(axis=(0, 1, 2)), values[inside].sum(axis=0) * f, f"{what}: totals", rtol=1e-5)
        if not near:
            judge(t, g, want * f, inside, values, what)
        if len(pos) < n:
            t.label("some not selected")
    t.nontrivial(inside.sum() > 1 and h != 1)


@st.composite
def conecases(draw):
    c = draw(base())
    c["h"] = draw(st.sampled_from([0.6774, 0.7, 1.0]))
    c["norm"] = draw(st.sampled_from([None, None, 2.5, 0.5]))
    c["shape"] = draw(st.sampled_from(["box", "box", "circle"]))
    c["open"] = draw(st.sampled_from([16, 40, 64]))  # in 1/1024 rad
    c["aspect"] = draw(st.sampled_from([1.0, 0.5, 2.0]))
    c["z"] = draw(st.sampled_from([[0.0, 2.0], [0.5, 1.5], [1.0, 1.25]]))
    c["axes"] = [{"lim": draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(-20, 20), st.integers(1, 8)))), "cell": draw(st.sampled_from([1, 2, 4]))} for _ in range(3)]
    c["rest"] = draw(st.sampled_from([None, None, 115.2712, 1901.0]))
    c["defaultres"] = draw(st.integers(0, 5)) == 0
    return c


def cone(case, t):
    h, n = case["h"], case["n"]
    r = np.random.default_rng(case["seed"])
    cat = hand.catalog(case["seed"], n, ["mass", "vel", "vol", "rate", "tag", "count", "pos_x", "pos_y", "pos_z"])
    U = 1024.0
    half = [case["open"] / 2, case["open"] * case["aspect"] / 2]
    for k, w in zip(("ra", "dec"), half):
        cat[k] = (r.integers(-int(w), int(w), n) + 0.5) / U
    z0, z1 = case["z"]
    cat["redshift"] = z0 + (r.integers(0, int((z1 - z0) * 64), n) + 0.5) / 64
    root = os.path.join(t.scratch, "lc")
    hand.write_lc(root, "cones", 3, h, 0.3, 0.05, case["shape"], z0, z1, cat, case["open"] / U, case["aspect"])
    hand.register_lc(root)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        hd = LCHandler("_testbox", "cones", 3, in_h_units=case["in_h"])
        eff = case["in_h"] if case["way"] is None else case["way"]
        cat["made"] = made(hd, cat, case, h)
        mask = select(hd, cat, case, "vel")
        if case["all"]:
            mask[:] = True
        rest = case["rest"]
        kw, lo, cell, num = {}, [], [], []
        for i, (name, a) in enumerate(zip(("ralim", "declim", "zlim"), case["axes"])):
            unit = [1 / U, 1 / U, 1 / 64 if rest is None else rest / 256][i]
            if a["lim"] is None:
                if i < 2:
                    L, width = -half[i] / U, 2 * half[i] / U
                else:
                    L, width = (z0, z1 - z0) if rest is None else (rest / (1 + z1), rest / (1 + z0) - rest / (1 + z1))
                c = width / 8
                m = 8
            else:
                L, c, m = a["lim"][0] * unit + (0 if i < 2 or rest is None else rest / 3), a["cell"] * unit, a["lim"][1]
                width = m * c
                kw[name] = (L, L + width)
            if case["defaultres"]:
                m, c = 100, width / 100
            lo.append(L)
            cell.append(c)
            num.append(m)
        if not case["defaultres"]:
            kw["res"] = cell
        if case["way"] is not None:
            kw["in_h_units"] = case["way"]
        g = hd.grid(*case["props"], restfreq=rest, use_all_inds=case["all"], norm=case["norm"], **kw)
        what = f"light cone grid of {case['props']} over {kw}, rest frequency {rest}, h={h}, default {'h' if case['in_h'] else 'physical'} units, norm {case['norm']}"
        t.check(list(g.n_pixels) == num, f"{what}: {list(g.n_pixels)} cells, expected {num}")
        t.close(np.array(g.pixel_size, float), np.array(cell), f"{what}: cell sizes", rtol=1e-9)
        for i in range(3):
            t.close(g.axes_centers[i], lo[i] + cell[i] * (np.arange(num[i]) + 0.5), f"{what}: cell centers on axis {i}", rtol=1e-9, atol=1e-9 * cell[i] * num[i])
        dep = {k: hand.STORED[k][2] for k in hand.STORED}
        dep["made"] = -2
        values = np.array([cat[p].astype(float) * (1 if eff else h ** float(dep[p])) for p in case["props"]]).T.reshape(n, len(case["props"]))[mask]
        zz = cat["redshift"] if rest is None else rest / (1 + cat["redshift"])
        pos = np.array([cat["ra"], cat["dec"], zz]).T.reshape(n, 3)[mask]
        frac = (pos - np.array(lo)) / np.array(cell)
        near = np.any(np.abs(frac - np.round(frac)) < 1e-6, axis=1)
        f = 1.0 if case["norm"] is None else case["norm"]
        want, inside = reference(pos, values, lo, cell, num)
        if not near.any():
            judge(t, g, want * f, inside, values, what)
        else:
            # an object may be counted on either side of an edge it sits on
            tot = g.grid.sum(axis=(0, 1, 2))
            sure = np.all((frac > 1e-6) & (frac < np.array(num) - 1e-6), axis=1)
            maybe = np.all((frac > -1e-6) & (frac < np.array(num) + 1e-6), axis=1)
            a, b = values[sure].sum(axis=0) * f, values[maybe].sum(axis=0) * f
            t.check(np.all(tot >= a - 1e-5 * np.abs(a)) and np.all(tot <= b + 1e-5 * np.abs(b)), f"{what}: totals {tot}, expected {a} to {b}")
    t.nontrivial(inside.sum() > 1)


CHECKS = [Check("snapshot", snapcases(), snapshot, quick=3000, thorough=40000), Check("cone", conecases(), cone, quick=2000, thorough=30000)]
