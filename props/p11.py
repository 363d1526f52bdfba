"""P11: PSF kernels and function grids against their formulas."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import DYADIC, UGLY, check_lattice
from simim.map import PSF, SpectralPSF, GridFromAxes, GridFromAxesAndFunction

PIX = st.sampled_from(DYADIC + UGLY[:6])


@st.composite
def psf_cases(draw):
    nd = draw(st.integers(1, 3))
    pix = [draw(PIX) for _ in range(nd)]
    cap = {1: 60, 2: 14, 3: 7}[nd]
    samepix = draw(st.booleans())
    if samepix:
        pix = [pix[0]] * nd
    mode = draw(st.sampled_from(["default", "scalar", "list"]))
    if mode == "default":
        # six widths: keep the array small
        w = [p * draw(st.integers(2, cap)) / 6 * draw(st.sampled_from([1.0, 1.05, 0.96])) for p in pix]
        side = None
    else:
        w = [p * draw(st.sampled_from([0.5, 1.0, 2.3, 4.0])) for p in pix]
        k = [draw(st.integers(1, cap)) for _ in range(nd)]
        if mode == "scalar":
            pix = [pix[0]] * nd
            k = [k[0]] * nd
        side = [a * b for a, b in zip(k, pix)]
    return {"fwhm": w, "pix": pix, "side": side, "mode": mode, "norm": draw(st.sampled_from(["area", "peak", None])), "units": draw(st.booleans()), "bare": draw(st.booleans())}


def gauss_fwhm(x, fwhm):
    return 2.0 ** (-(2 * x / fwhm) ** 2)


def run_psf(case, t):
    nd = len(case["fwhm"])
    kw = {}
    if case["mode"] == "scalar":
        kw["side_length"] = case["side"][0]
    elif case["mode"] == "list":
        kw["side_length"] = tuple(case["side"])
    if case["norm"]:
        kw["norm"] = case["norm"]
    same = len(set(case["pix"])) == 1
    pix = case["pix"][0] if same and (case["bare"] or case["mode"] == "scalar") else tuple(case["pix"])
    g = PSF(case["fwhm"][0] if nd == 1 and case["bare"] else tuple(case["fwhm"]), pix, **kw)
    n = [int(k) for k in g.n_pixels]
    want = case["side"] or [6 * w for w in case["fwhm"]]
    for i in range(nd):
        t.check(abs(n[i] - want[i] / case["pix"][i]) <= 1.0, f"extent along axis {i}: {n[i]} cells of {case['pix'][i]} for {want[i]}")
    check_lattice(t, g, n, case["pix"], [0.0] * nd, "PSF")
    ref = np.ones(n)
    for i in range(nd):
        x = (np.arange(n[i]) + 0.5 - n[i] / 2) * case["pix"][i]
        sh = [1] * nd
        sh[i] = n[i]
        ref = ref * gauss_fwhm(x, case["fwhm"][i]).reshape(sh)
    if case["norm"] != "peak":
        ref = ref / ref.sum()
    t.close(g.grid, ref[..., None], "PSF values", rtol=1e-9, atol=1e-12 * ref.max())
    for i in range(nd):
        t.close(np.flip(g.grid, i), g.grid, f"symmetry along axis {i}", rtol=1e-9, atol=1e-12 * ref.max())
    t.equal(int(g.n_properties), 1, "number of properties")
    t.label(f"{nd}-d", str(case["norm"]), case["mode"])
    t.nontrivial(max(n) > 2)


@st.composite
def spec_cases(draw):
    nd = draw(st.integers(1, 2))
    pix = [draw(PIX) for _ in range(nd)]
    nch = draw(st.integers(2, 8))
    s0 = draw(st.sampled_from([1.0, 100.0, 230.0, 0.5]))
    ds = s0 * draw(st.sampled_from([0.01, 0.1, 0.25]))
    k = [draw(st.integers(1, 11)) for _ in range(nd)]
    return {"fwhm": [p * draw(st.sampled_from([0.7, 1.5, 3.0])) for p in pix], "pix": pix, "k": k, "s0": s0, "ds": ds, "nch": nch,
            "spec0": s0 * draw(st.sampled_from([0.5, 1.0, 1.7])), "exp": draw(st.sampled_from([None, 1, 0, 0.5, 2.0, -1.0])),
            "norm": draw(st.sampled_from(["area", "peak", None])), "default": draw(st.integers(0, 3)) == 0, "bare": draw(st.booleans())}


def run_spec(case, t):
    nd = len(case["fwhm"])
    ch = case["s0"] + case["ds"] * np.arange(case["nch"])
    kw = {}
    if not case["default"]:
        kw["side_length"] = tuple(k * p for k, p in zip(case["k"], case["pix"]))
    if case["norm"]:
        kw["norm"] = case["norm"]
    if case["exp"] is not None:
        kw["exp"] = case["exp"]
    ch0 = ch.copy()
    g = SpectralPSF(ch, case["spec0"], case["fwhm"][0] if nd == 1 and case["bare"] else tuple(case["fwhm"]),
                    case["pix"][0] if nd == 1 and case["bare"] else tuple(case["pix"]), **kw)
    t.close(ch, ch0, "the caller's spectral axis", rtol=0)
    n = [int(k) for k in g.n_pixels]
    if not case["default"]:
        t.equal(n[:nd], case["k"], "cells along the spatial axes")
    t.equal(n[nd], case["nch"], "spectral cells")
    check_lattice(t, g, n, case["pix"] + [case["ds"]], [0.0] * nd + [float(ch.mean())], "SpectralPSF")
    t.close(g.axes_centers[nd], ch, "spectral cell centers", rtol=1e-9)
    e = 1 if case["exp"] is None else case["exp"]
    for c in range(case["nch"]):
        ref = np.ones(n[:nd])
        for i in range(nd):
            x = (np.arange(n[i]) + 0.5 - n[i] / 2) * case["pix"][i]
            sh = [1] * nd
            sh[i] = n[i]
            ref = ref * gauss_fwhm(x, case["fwhm"][i] * (case["spec0"] / ch[c]) ** e).reshape(sh)
        if case["norm"] != "peak":
            ref = ref / ref.sum()
        t.close(g.grid[..., c, 0], ref, f"kernel in channel {c}", rtol=1e-8, atol=1e-12 * ref.max())
    t.equal(int(g.n_properties), 1, "number of properties")
    t.label(f"{nd} spatial axes", str(case["norm"]), f"exponent {case['exp']}")
    t.nontrivial(max(n[:nd]) > 2 and e != 0)


@st.composite
def axes_cases(draw):
    nd = draw(st.integers(1, 3))
    axs = []
    for _ in range(nd):
        n = draw(st.integers(1, 40 if nd == 1 else 8))
        lo = draw(st.one_of(st.integers(-10, 10).map(float), st.sampled_from([0.1, -0.3, 1e3, 212.7])))
        d = draw(PIX)
        axs.append({"n": n, "lo": lo, "d": d, "how": draw(st.sampled_from(["linspace", "arange", "int"]))})
    return {"axs": axs, "np": draw(st.integers(1, 3)), "f": draw(st.sampled_from(["none", "sum", "prod", "kw"])), "units": draw(st.booleans())}


def run_axes(case, t):
    arrs = []
    for a in case["axs"]:
        if a["how"] == "linspace":
            arrs.append(np.linspace(a["lo"], a["lo"] + a["n"] * a["d"], a["n"] + 1))
        elif a["how"] == "int":
            arrs.append(np.arange(a["n"] + 1) + int(a["lo"]))
        else:
            arrs.append(a["lo"] + a["d"] * np.arange(a["n"] + 1))
    nd = len(arrs)
    keep = [a.copy() for a in arrs]
    n = [len(a) - 1 for a in arrs]
    d = [float((a[-1] - a[0]) / (len(a) - 1)) for a in arrs]
    cen = [float((a[0] + a[-1]) / 2) for a in arrs]
    kw = {}
    if case["units"]:
        kw["axunits"] = tuple("u%d" % i for i in range(nd))
    mids = [(a[1:] + a[:-1]) / 2 for a in keep]
    if case["f"] == "none":
        g = GridFromAxes(*arrs, n_properties=case["np"], **kw)
        g.init_grid()
        check_lattice(t, g, n, d, cen, "GridFromAxes")
        t.equal(int(g.n_properties), case["np"], "number of properties")
    else:
        seen = []

        def func(*x, a=1.0, b=0.0):
            seen.append([np.array(v) for v in x])
            out = np.zeros([len(v) for v in x]) if case["f"] != "prod" else np.ones([len(v) for v in x])
            for i, v in enumerate(x):
                sh = [1] * len(x)
                sh[i] = len(v)
                out = out * (v.reshape(sh) + i) if case["f"] == "prod" else out + (i + 1) * v.reshape(sh)
            return a * out + b
        fk = {"a": 2.5, "b": -1.0} if case["f"] == "kw" else {}
        g = GridFromAxesAndFunction(func, *arrs, **({"function_kwargs": fk} if fk else {}), **kw)
        ref = func(*mids, **fk)
        check_lattice(t, g, n, d, cen, "GridFromAxesAndFunction")
        t.close(g.grid[..., 0], ref, "function values", rtol=1e-8, atol=1e-8 * (np.abs(ref).max(initial=0) + 1))
        t.equal(g.grid.shape[-1], 1, "number of properties")
    for i in range(nd):
        s = np.abs(keep[i]).max() + d[i]
        t.close(g.axes[i], keep[i].astype(float), f"axis {i} as given", rtol=0, atol=1e-9 * s)
        t.close(arrs[i], keep[i], "the caller's axes", rtol=0)
    if case["units"]:
        t.equal(list(g.axunits), ["u%d" % i for i in range(nd)], "units")
    if nd >= 1 and n[0] >= 2:
        bad = keep[0].astype(float).copy()
        bad[-1] += 0.37 * d[0]
        t.raises(lambda: GridFromAxes(bad, *keep[1:]), "an axis with uneven spacing")
    t.label(case["f"], f"{nd}-d", *[a["how"] for a in case["axs"]])
    t.nontrivial(max(n) > 1)


CHECKS = [
    Check("psf", psf_cases(), run_psf, quick=12000, thorough=30000),
    Check("spectral_psf", spec_cases(), run_spec, quick=9600, thorough=30000),
    Check("from_axes", axes_cases(), run_axes, quick=12000, thorough=30000),
]
