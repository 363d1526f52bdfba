"""P09: collapse, property sums and down-sampling against loops over the discarded axes."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, check_lattice, disturb, grid_specs, rng


@st.composite
def collapse_cases(draw):
    spec = draw(grid_specs(max_dim=4, max_cells=150, max_n=6, max_props=3, big=True))
    nd = len(spec["n"])
    p = draw(st.permutations(list(range(nd))))
    ax = p[: draw(st.integers(1, nd))]
    if len(ax) == 1:
        wt = draw(st.sampled_from(["none", "1d", "nd", "full", "intw"]))
    else:
        wt = draw(st.sampled_from(["none", "1d", "1d"]))
    return {"spec": spec, "ax": ax, "wt": wt, "mode": draw(st.sampled_from(["average", "sum", None])), "inplace": draw(st.booleans()),
            "seed": draw(SEED), "bare": draw(st.booleans()), "units": draw(st.booleans()), "four": draw(st.booleans()) and nd > 1,
            "tuplew": draw(st.booleans())}


def run_collapse(case, t):
    spec, ax = case["spec"], case["ax"]
    nd = len(spec["n"])
    g = build(spec, **({"axunits": tuple("u%d" % i for i in range(nd))} if case["units"] else {}))
    data = bulk(case["seed"], g.grid.shape)
    g.grid = data.copy()
    g.n_objects = 4
    keep = [i for i in range(nd) if i not in ax]
    if case["four"] and keep:
        g.fourier_transform(keep[0])
        data = g.grid.copy()
        t.label("a kept axis in Fourier space")
    four = [bool(b) for b in g.fourier_space]
    r = rng(case["seed"] + 1)
    wfull = np.ones(data.shape)
    kw = {}
    if case["wt"] != "none":
        if case["wt"] in ("1d", "intw"):
            ws = [r.integers(1, 6, spec["n"][i]) if case["wt"] == "intw" else r.uniform(0.2, 2.0, spec["n"][i]) for i in ax]
            for w, i in zip(ws, ax):
                sh = [1] * (nd + 1)
                sh[i] = spec["n"][i]
                wfull = wfull * w.reshape(sh)
        elif case["wt"] == "nd":
            ws = [r.uniform(0.2, 2.0, tuple(spec["n"]))]
            # a one-dimensional array is one weight per cell of the axis in either reading
            wfull = wfull * ws[0][..., None]
        else:
            ws = [r.uniform(0.2, 2.0, data.shape)]
            wfull = wfull * ws[0]
        w0 = [w.copy() for w in ws]
        if len(ax) == 1:
            arg = ws[0]
        else:
            arg = tuple(ws) if case["tuplew"] else list(ws)
            ids = [id(w) for w in arg]
        kw["weights"] = arg
    if case["mode"]:
        kw["mode"] = case["mode"]
    tot = (data * wfull).sum(axis=tuple(ax))
    ref = tot if case["mode"] == "sum" else tot / wfull.sum(axis=tuple(ax))
    a = ax[0] if len(ax) == 1 and case["bare"] else list(ax)
    out = g.collapse_dimension(a, in_place=case["inplace"], **kw)
    m = np.abs(data).max(initial=0) * np.prod([spec["n"][i] for i in ax]) * 2 ** len(ax)
    t.close(out.grid, ref, "collapsed values", rtol=1e-8, atol=1e-10 * m)
    if keep:
        check_lattice(t, out, [spec["n"][i] for i in keep], [spec["pix"][i] for i in keep], [spec["cen"][i] for i in keep], "collapsed grid")
        t.equal([bool(b) for b in out.fourier_space], [four[i] for i in keep], "which kept axes are in Fourier space")
        if case["units"]:
            t.equal(list(out.axunits), ["u%d" % i for i in keep], "units of the kept axes")
    t.equal(int(out.n_properties), spec["np"], "number of properties")
    if case["inplace"]:
        t.check(out is g, "in-place collapse returns the grid itself")
    else:
        t.check(out is not g, "a new grid is returned")
        t.close(g.grid, data, "the original grid", rtol=0)
        check_lattice(t, g, spec["n"], spec["pix"], spec["cen"], "original grid")
        units = list(g.axunits)
        disturb(out)
        t.close(g.grid, data, "the original grid after changing the result", rtol=0)
        check_lattice(t, g, spec["n"], spec["pix"], spec["cen"], "original grid after changing the result")
        t.equal([bool(b) for b in g.fourier_space], four, "which of the original's axes are in Fourier space after changing the result")
        t.equal(list(g.axunits), units, "the original's units after changing the result")
    if case["wt"] != "none":
        for w, w1 in zip(ws, w0):
            t.close(w, w1, "the caller's weights", rtol=0)
        if len(ax) > 1:
            t.equal([id(w) for w in arg], ids, "the caller's list of weights")
    t.label(f"{len(ax)} of {nd} axes", "weights " + case["wt"], str(case["mode"]), "in place" if case["inplace"] else "new grid")
    if len(ax) > 1 and ax != sorted(ax):
        t.label("axes not in order")
    t.nontrivial(np.prod([spec["n"][i] for i in ax]) > 1)


@st.composite
def sum_cases(draw):
    spec = draw(grid_specs(max_dim=3, max_props=5, max_cells=60, big=True))
    k = spec["np"]
    sel = draw(st.one_of(st.none(), st.lists(st.integers(0, k - 1), min_size=1, max_size=k, unique=True)))
    return {"spec": spec, "sel": sel, "inplace": draw(st.booleans()), "seed": draw(SEED), "gunits": draw(st.booleans()),
            "four": draw(st.booleans()), "bare": draw(st.booleans())}


def run_sum(case, t):
    spec, sel = case["spec"], case["sel"]
    k = spec["np"]
    g = build(spec, **({"gridunits": "Jy"} if case["gunits"] else {}))
    data = bulk(case["seed"], g.grid.shape)
    g.grid = data.copy()
    if case["four"]:
        g.fourier_transform(0)
        data = g.grid.copy()
    s = list(range(k)) if sel is None else sel
    ref = data[..., s].sum(-1)
    m = np.abs(data).max(initial=0) * k
    kw = {} if sel is None else {"properties": sel[0] if len(sel) == 1 and case["bare"] else list(sel)}
    out = g.sum_properties(in_place=case["inplace"], **kw)
    if case["inplace"]:
        t.check(out is g, "the grid itself is returned")
        t.equal(int(g.n_properties), k + 1, "number of properties")
        t.close(g.grid[..., :k], data, "the other properties", rtol=0)
        t.close(g.grid[..., k], ref, "summed property", rtol=1e-10, atol=1e-12 * m)
    else:
        t.equal(int(out.n_properties), 1, "number of properties of the sum")
        t.close(out.grid, ref[..., None], "summed property", rtol=1e-10, atol=1e-12 * m)
        t.close(g.grid, data, "the original grid", rtol=0)
        t.equal(int(g.n_properties), k, "number of properties of the original")
        check_lattice(t, out, spec["n"], spec["pix"], spec["cen"], "summed grid")
        t.equal([bool(b) for b in out.fourier_space], [bool(case["four"])] + [False] * (len(spec["n"]) - 1), "which axes of the result are in Fourier space")
        disturb(out)
        t.close(g.grid, data, "the original grid after changing the sum", rtol=0)
        out = g
    t.equal([bool(b) for b in out.fourier_space], [bool(case["four"])] + [False] * (len(spec["n"]) - 1), "which axes of the result are in Fourier space")
    check_lattice(t, out, spec["n"], spec["pix"], spec["cen"], "summed grid")
    t.raises(lambda: g.sum_properties(properties=[k + 7]), "summing a property that does not exist")
    t.nontrivial(len(s) > 1)


@st.composite
def down_cases(draw):
    spec = draw(grid_specs(max_dim=3, max_n=12, max_cells=300, max_props=2, big=True))
    nd = len(spec["n"])
    p = draw(st.permutations(list(range(nd))))
    ax = p[: draw(st.integers(1, nd))]
    scalar = draw(st.booleans())
    if scalar:
        f = [draw(st.integers(1, min(spec["n"][i] for i in ax)))] * len(ax)
    else:
        f = [draw(st.integers(1, spec["n"][i])) for i in ax]
    return {"spec": spec, "ax": ax, "f": f, "scalar": scalar, "mode": draw(st.sampled_from(["average", "sum", None])), "seed": draw(SEED),
            "active": draw(st.sampled_from([True, True, True, False])), "bare": draw(st.booleans()), "complex": draw(st.booleans())}


def run_down(case, t):
    spec, ax, f = case["spec"], case["ax"], case["f"]
    nd = len(spec["n"])
    g = build(spec, init=case["active"])
    n, pix, cen = list(spec["n"]), list(spec["pix"]), list(spec["cen"])
    ref = None
    if case["active"]:
        ref = bulk(case["seed"], g.grid.shape, "complex" if case["complex"] else "float")
        g.grid = ref.copy()
    for i, k in zip(ax, f):
        m = n[i] // k
        cen[i] = cen[i] + (m * k - n[i]) / 2 * pix[i]
        if ref is not None:
            d = np.moveaxis(ref, i, 0)[: m * k]
            d = d.reshape((m, k) + d.shape[1:])
            d = d.sum(1) if case["mode"] == "sum" else d.mean(1)
            ref = np.moveaxis(d, 0, i)
        if n[i] % k:
            t.label("incomplete last block")
        n[i], pix[i] = m, pix[i] * k
    kw = {"mode": case["mode"]} if case["mode"] else {}
    g.down_sample(ax[0] if len(ax) == 1 and case["bare"] else list(ax), f[0] if case["scalar"] else list(f), **kw)
    if ref is not None:
        t.close(g.grid, ref, "down-sampled values", rtol=1e-10, atol=1e-11 * np.abs(ref).max(initial=0))
    check_lattice(t, g, n, pix, cen, "down-sampled grid")
    t.label(f"{len(ax)} of {nd} axes", str(case["mode"]))
    t.nontrivial(any(k > 1 for k in f))


CHECKS = [
    Check("collapse", collapse_cases(), run_collapse, quick=19200, thorough=60000),
    Check("sum", sum_cases(), run_sum, quick=6400, thorough=20000),
    Check("down_sample", down_cases(), run_down, quick=12800, thorough=40000),
]
