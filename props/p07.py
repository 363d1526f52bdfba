"""P07: shell averages against a cell-by-cell reference."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, grid_specs, centers, rng


@st.composite
def cases(draw):
    spec = draw(grid_specs(max_dim=3, max_cells=200, max_n=9, max_props=2, big=True))
    nd = len(spec["n"])
    p = draw(st.permutations(list(range(nd))))
    space = draw(st.sampled_from(["map", "map", "fourier", "power", "there_and_back"]))
    if space in ("fourier", "power"):
        ax = None
    else:
        ax = draw(st.one_of(st.none(), st.just(p[: draw(st.integers(1, nd))])))
    mode = draw(st.sampled_from(["none", "int", "edges", "edges"]))
    wt = draw(st.sampled_from(["none", "none", "spatial", "full", "axis0", "int"]))
    return {"spec": spec, "ax": ax, "space": space, "mode": mode, "nsh": draw(st.integers(1, 8)),
            "npint": draw(st.booleans()), "binmode": draw(st.sampled_from(["linear", "linear", "log"])),
            "edges": sorted(set(draw(st.lists(st.integers(0, 24), min_size=2, max_size=7)) + [draw(st.integers(25, 40))])),
            "center": draw(st.one_of(st.none(), st.lists(st.integers(-3, 3), min_size=nd, max_size=nd))),
            "wt": wt, "std": draw(st.booleans()), "biased": draw(st.booleans()), "n": draw(st.booleans()),
            "seed": draw(SEED), "const": draw(st.integers(0, 4)) == 0, "bare": draw(st.booleans())}


def run(case, t):
    spec = case["spec"]
    nd, npr = len(spec["n"]), spec["np"]
    g = build(spec)
    data = np.full(g.grid.shape, 2.75) if case["const"] else bulk(case["seed"], g.grid.shape, "float")
    g.grid = data.copy()
    space = case["space"]
    fourier = space in ("fourier", "power")
    if space == "fourier":
        g.fourier_transform()
        data = g.grid.copy()
    elif space == "power":
        g = g.power_spectrum()
        data = g.grid.copy()
    elif space == "there_and_back":
        g.fourier_transform()
        g.fourier_transform()
        data = g.grid.copy()
    ax = list(range(nd)) if case["ax"] is None else case["ax"]
    keep = [i for i in range(nd) if i not in ax]
    if fourier:
        vals = [np.sort(np.fft.fftfreq(n, p)) for n, p in zip(spec["n"], spec["pix"])]
        unit = [1 / (n * p) for n, p in zip(spec["n"], spec["pix"])]
        cen = [0.0] * nd
    else:
        vals = [centers(spec, i) for i in range(nd)]
        unit = spec["pix"]
        cen = [float(c) for c in spec["cen"]]
    kw = {}
    if case["center"] is not None:
        cen = [c + 0.3 * k * u for c, k, u in zip(cen, case["center"], unit)]
        kw["center"] = tuple(cen)
    if case["ax"] is not None:
        kw["ax"] = ax[0] if len(ax) == 1 and case["bare"] else list(ax)
    r2 = np.zeros(spec["n"])
    for i in ax:
        sh = [1] * nd
        sh[i] = spec["n"][i]
        r2 = r2 + ((vals[i] - cen[i]) ** 2).reshape(sh)
    rad = np.sqrt(r2)
    rmax = rad.max()
    if case["mode"] == "edges":
        sc = rmax / 24 if rmax > 0 else 1.0
        e = np.array(case["edges"]) * sc * 1.0137
        kw["shells"] = e
    elif case["mode"] == "int":
        kw["shells"] = np.int64(case["nsh"]) if case["npint"] else case["nsh"]
    if case["mode"] != "edges":
        kw["binmode"] = case["binmode"]
        if rmax - rad.min() < 1e-4 * rmax or rmax == 0:
            return  # all cells at one radius: no range to divide
        if case["binmode"] == "log":
            exact0 = case["center"] is None and (fourier or spec["dy"])
            pos = rad[rad > 1e-9 * rmax]
            if (rad.min() <= 1e-9 * rmax and not exact0) or pos.max() - pos.min() < 1e-4 * rmax:
                return  # whether the smallest radius is zero is a matter of rounding; or no range
            if rad.min() <= 1e-9 * rmax:
                t.label("log shells about a cell center")
    w = None
    full_w = np.ones(data.shape)
    if case["wt"] != "none":
        r = rng(case["seed"] + 1)
        shape = {"spatial": tuple(spec["n"]), "full": data.shape, "axis0": (spec["n"][0],), "int": tuple(spec["n"])}[case["wt"]]
        w = r.integers(1, 5, shape) if case["wt"] == "int" else r.uniform(0.2, 2.0, shape)
        full_w = np.broadcast_to(np.asarray(w, float).reshape(shape + (1,) * (nd + 1 - len(shape))), data.shape)
        kw["weights"] = w
        w0 = np.array(w)
    std_ok = not np.iscomplexobj(data)
    ask_std = case["std"] and std_ok
    base = g.spherical_average(**kw)
    axes, avg = base[0], base[1]
    shells = np.asarray(axes[0])
    # the shells asked for
    if case["mode"] == "edges":
        t.close(shells, e, "shell edges", rtol=1e-12)
    else:
        k = 10 if case["mode"] == "none" else case["nsh"]
        t.equal(len(shells), k + 1, "number of shell edges")
        lo, hi = rad.min(), rad.max()
        if case["binmode"] == "log" and lo <= 0:
            lo = rad[rad > 0].min()
        if case["binmode"] == "linear":
            t.close(np.diff(shells), np.full(k, (hi - lo) / k), "linear shell widths", rtol=1e-6)
        else:
            t.close(np.diff(np.log(shells)), np.full(k, np.log(hi / lo) / k), "logarithmic shell widths", rtol=1e-5, atol=1e-8)
        t.close(shells[0], lo, "inner edge", rtol=1e-6, atol=1e-9 * hi)
        t.close(shells[-1], hi, "outer edge", rtol=1e-6)
    t.equal(len(axes), 1 + len(keep) + 1, "number of result axes")
    for j, i in enumerate(keep):
        t.close(axes[1 + j], vals[i], f"values of kept axis {i}", rtol=1e-9, atol=1e-9 * (abs(cen[i]) + unit[i] * spec["n"][i]))
    # a cell whose radius rounding could move across an edge belongs to neither count for certain
    span = rmax + abs(shells).max()
    amb = np.zeros(rad.shape, bool)
    for q in shells:
        amb |= np.abs(rad - q) < 1e-9 * span
    if case["mode"] != "edges":
        # outermost cells must be inside by construction; only inner edges are delicate
        amb &= np.abs(rad - rmax) > 1e-9 * span
        if case["binmode"] == "linear":
            amb &= np.abs(rad - rad.min()) > 1e-9 * span
    shape = (len(shells) - 1,) + tuple(spec["n"][i] for i in keep) + (npr,)
    dt = complex if np.iscomplexobj(data) else float
    ref = np.full(shape, np.nan, dt)
    refn = np.zeros(shape)
    refs = np.full(shape, np.nan)
    skip = np.zeros(shape, bool)
    moved = np.moveaxis(data, keep, range(len(keep))).reshape([spec["n"][i] for i in keep] + [-1, npr])
    movedw = np.moveaxis(full_w, keep, range(len(keep))).reshape([spec["n"][i] for i in keep] + [-1, npr])
    mr = np.moveaxis(rad, keep, range(len(keep))).reshape([spec["n"][i] for i in keep] + [-1])
    ma = np.moveaxis(amb, keep, range(len(keep))).reshape([spec["n"][i] for i in keep] + [-1])
    for s in range(len(shells) - 1):
        for idx in np.ndindex(*[spec["n"][i] for i in keep]):
            lo, hi = shells[s], shells[s + 1]
            if case["mode"] != "edges":
                if s == len(shells) - 2:
                    hi = hi * (1 + 1e-6)
                if s == 0 and case["binmode"] == "linear":
                    lo = lo - 1e-6 * span
            inside = (mr[idx] >= lo) & (mr[idx] < hi)
            near = ma[idx] & (mr[idx] >= lo - 1e-6 * span) & (mr[idx] < hi + 1e-6 * span)
            if near.any():
                skip[(s,) + idx] = True
                continue
            for p in range(npr):
                x = moved[idx][inside, p]
                ww = movedw[idx][inside, p]
                refn[(s,) + idx + (p,)] = len(x)
                if len(x):
                    mean = (x * ww).sum() / ww.sum()
                    ref[(s,) + idx + (p,)] = mean
                    if std_ok:
                        v = (ww * np.abs(x - mean) ** 2).sum()
                        if case["biased"]:
                            refs[(s,) + idx + (p,)] = np.sqrt(v / ww.sum())
                        else:
                            den = ww.sum() - (ww ** 2).sum() / ww.sum()
                            refs[(s,) + idx + (p,)] = np.sqrt(v / den) if len(x) > 1 else np.nan
    m = np.abs(data).max(initial=0) + 1e-300
    t.equal(np.asarray(avg).shape, shape, "shape of the averages")
    ok = ~skip
    got = np.asarray(avg)
    t.close(got[ok], ref[ok], "shell averages", rtol=1e-8, atol=1e-9 * m)
    if case["const"] and space == "map":
        filled = ok & (refn > 0)
        t.close(got[filled], np.full(filled.sum(), 2.75), "average of a constant field", rtol=1e-9)
        t.label("constant field")
    single = {}
    if case["n"]:
        rn = g.spherical_average(return_n=True, **kw)
        t.close(rn[1], avg, "averages when counts are requested", rtol=1e-12)
        cnt = np.asarray(rn[2], float)
        t.close(cnt[ok], refn[ok], "cells per shell", rtol=0)
        single["n"] = rn[2]
        if case["mode"] != "edges" and case["binmode"] == "linear":
            t.close(cnt.sum(), data.size, "cells in all shells", rtol=0)
    if ask_std:
        rs = g.spherical_average(return_std=True, biased_std=case["biased"], **kw)
        t.close(rs[1], avg, "averages when deviations are requested", rtol=1e-12)
        sd = np.asarray(rs[2])
        one = refn == 1
        sel = ok & ~(one if not case["biased"] else np.zeros_like(one))
        t.close(sd[sel], refs[sel], "standard deviation per shell", rtol=1e-6, atol=1e-7 * m)
        single["std"] = rs[2]
        t.label("standard deviation")
    if case["n"] and ask_std:
        both = g.spherical_average(return_n=True, return_std=True, biased_std=case["biased"], **kw)
        t.equal(len(both), 4, "number of results with counts and deviations")
        same = lambda x, y: np.array_equal(np.nan_to_num(np.asarray(x, float), nan=-1, posinf=-2), np.nan_to_num(np.asarray(y, float), nan=-1, posinf=-2))
        t.check((same(both[2], single["n"]) and same(both[3], single["std"])) or (same(both[3], single["n"]) and same(both[2], single["std"])),
                "counts and deviations together equal those asked for separately")
    t.close(g.grid, data, "the grid afterwards", rtol=0)
    if w is not None:
        t.close(w, w0, "the caller's weights", rtol=0)
        t.label("weights " + case["wt"])
    t.label(space, case["mode"], "axis subset" if keep else "all axes", *(["empty shell"] if (refn[ok] == 0).any() else []))
    t.nontrivial((refn[ok] > 1).any())


CHECKS = [Check("shells", cases(), run, quick=20800, thorough=60000)]
