"""P08: convolution against the defining sum."""
import itertools
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, check_lattice, disturb, grid_specs
from simim.map import Grid


@st.composite
def cases(draw):
    spec = draw(grid_specs(max_dim=3, max_cells=100, max_n=7, max_props=3, big=True))
    nd = len(spec["n"])
    kd = draw(st.integers(1, nd))
    sub = draw(st.booleans())
    if sub:
        p = draw(st.permutations(list(range(kd))))
        ax = p[: draw(st.integers(1, kd))]
    else:
        ax = None
    active = list(range(kd)) if ax is None else ax
    kn = []
    for i in range(kd):
        if i in active:
            kn.append(draw(st.integers(1, 5 if draw(st.integers(0, 3)) else 9)))
        else:
            kn.append(draw(st.sampled_from([1, spec["n"][i]])))
    pad = draw(st.sampled_from(["none", "int", "list"]))
    return {"spec": spec, "kn": kn, "ax": ax, "kp": draw(st.sampled_from([1, spec["np"]])), "bare": draw(st.booleans()),
            "pad": None if pad == "none" else (draw(st.integers(0, 3)) if pad == "int" else [draw(st.integers(0, 3)) for _ in active]),
            "inplace": draw(st.booleans()), "seed": draw(SEED), "seed2": draw(SEED), "int": draw(st.booleans()), "c": draw(st.sampled_from([2.0, -0.5, 3.0]))}


def direct(data, ker, ax):
    """data (cells..., props); ker broadcast on axes outside `ax` and on properties."""
    out = np.zeros(data.shape, dtype=np.result_type(data, ker))
    ksub = [range(ker.shape[i]) for i in ax]
    for off in itertools.product(*ksub):
        sl = [slice(None)] * ker.ndim
        for i, o in zip(ax, off):
            sl[i] = slice(o, o + 1)
        kk = ker[tuple(sl)]
        # output x gets data[x - (o - c)] * ker[o], with c the middle of the kernel
        term = data * kk
        src = [slice(None)] * data.ndim
        dst = [slice(None)] * data.ndim
        dead = False
        for i, o in zip(ax, off):
            s = o - (ker.shape[i] - 1) // 2
            n = data.shape[i]
            if abs(s) >= n:
                dead = True
                break
            if s >= 0:
                dst[i], src[i] = slice(s, n), slice(0, n - s)
            else:
                dst[i], src[i] = slice(0, n + s), slice(-s, n)
        if not dead:
            # kernel factors on untransformed axes belong to the output cell, which is the same index there
            out[tuple(dst)] += term[tuple(src)]
    return out


def run(case, t):
    spec = case["spec"]
    nd = len(spec["n"])
    kd = len(case["kn"])
    ax = list(range(kd)) if case["ax"] is None else case["ax"]
    kind = "int" if case["int"] else "float"
    data = bulk(case["seed"], tuple(spec["n"]) + (spec["np"],), kind)
    ker = bulk(case["seed2"], tuple(case["kn"]) + (case["kp"],), kind)
    kfull = ker.reshape(tuple(case["kn"]) + (1,) * (nd - kd) + (case["kp"],))
    ref = direct(data, kfull, sorted(ax))

    def mk(d):
        g = build(spec)
        g.grid = d.copy()
        g.n_objects = 3
        return g

    def mkk(k):
        s = Grid(case["kp"], tuple([0.0] * kd), tuple(float(n * spec["pix"][i]) for i, n in enumerate(case["kn"])), tuple(spec["pix"][:kd]))
        s.init_grid()
        s.grid = k.copy()
        return s

    g, s = mk(data), mkk(ker)
    kw = {}
    if case["ax"] is not None:
        kw["ax"] = ax[0] if len(ax) == 1 and case["bare"] else list(ax)
    if case["pad"] is not None:
        kw["pad"] = case["pad"]
    out = g.convolve(s, in_place=case["inplace"], **kw)
    m = np.abs(data).sum() * (np.abs(ker).max(initial=0)) + 1e-300
    tol = dict(rtol=1e-8, atol=1e-10 * m)
    t.close(out.grid, ref, "convolved values", **tol)
    check_lattice(t, out, spec["n"], spec["pix"], spec["cen"], "convolved grid")
    t.close(s.grid, ker, "the kernel", rtol=0)
    if case["inplace"]:
        t.check(out is g, "in-place convolution returns the grid itself")
    else:
        t.check(out is not g, "a new grid is returned")
        t.close(g.grid, data, "the original grid", rtol=0)
        check_lattice(t, g, spec["n"], spec["pix"], spec["cen"], "original grid")
        disturb(out)
        t.close(g.grid, data, "the original grid after changing the result", rtol=0)
        check_lattice(t, g, spec["n"], spec["pix"], spec["cen"], "original grid after changing the result")
    # a single-cell unit kernel is the identity
    one = Grid(1, tuple([0.0] * nd), tuple(spec["pix"]), tuple(spec["pix"]))
    one.init_grid()
    one.grid[...] = 1.0
    t.close(mk(data).convolve(one, in_place=False).grid, data, "convolution with a single unit cell", rtol=1e-9, atol=1e-10 * (np.abs(data).max(initial=0) + 1))
    # linearity in both arguments
    d2 = bulk(case["seed2"] + 1, data.shape, kind)
    a = mk(data + case["c"] * d2).convolve(mkk(ker), in_place=False, **kw).grid
    b = mk(d2).convolve(mkk(ker), in_place=False, **kw).grid
    m2 = m + np.abs(d2).sum() * np.abs(ker).max(initial=0) * 3
    t.close(a, ref + case["c"] * b, "linearity in the grid", rtol=1e-7, atol=1e-9 * m2)
    t.close(mk(data).convolve(mkk(ker * case["c"]), in_place=False, **kw).grid, ref * case["c"], "linearity in the kernel", rtol=1e-7, atol=1e-9 * m * 3)
    t.label("padded" if case["pad"] else "not padded", "lower-dimensional kernel" if kd < nd else "full kernel",
            "axis subset" if case["ax"] is not None else "default axes", "in place" if case["inplace"] else "new grid")
    if any(case["kn"][i] > spec["n"][i] for i in ax):
        t.label("kernel larger than grid")
    if any(case["kn"][i] == spec["n"][i] > 1 for i in range(kd) if i not in ax):
        t.label("kernel varies along an untransformed axis")
    t.nontrivial(np.prod([case["kn"][i] for i in ax]) > 1 and np.prod(spec["n"]) > 1)


CHECKS = [Check("convolve", cases(), run, quick=17600, thorough=60000)]
