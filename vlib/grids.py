"""Shared generators and reference lattice for the grid properties."""
from fractions import Fraction
import math
import numpy as np
from vlib.hyp import st
from simim.map import Grid

DYADIC = [0.25, 0.5, 1.0, 2.0]
UGLY = [0.1, 0.3, 1 / 3, 7.3, 0.07, 12.9, 1e-3, 250.1]


def rng(seed):
    """Bulk numbers for a case are a pure function of an integer the case
    carries (so replay needs the case only)."""
    return np.random.default_rng(seed)


SEED = st.integers(0, 2**31 - 1)


@st.composite
def sizes(draw, small, large=(1500, 9000, 70000), one_in=60):
    """Mostly few objects; now and then more than any block or buffer holds."""
    n = draw(small)
    if draw(st.integers(0, one_in - 1)) == one_in - 1:
        n = draw(st.sampled_from(large)) + n
    return n


def bulk(seed, shape, kind="float"):
    r = rng(seed)
    if kind == "int":
        return r.integers(-9, 10, shape).astype(float)
    if kind == "pos":
        return r.uniform(0.1, 3.0, shape)
    if kind == "ones":
        return np.ones(shape)
    if kind == "complex":
        return r.normal(size=shape) + 1j * r.normal(size=shape)
    return r.normal(size=shape)


@st.composite
def grid_specs(draw, min_dim=1, max_dim=4, max_cells=300, max_props=3, min_n=1, max_n=7, dyadic=None, big=False):
    nd = draw(st.integers(min_dim, max_dim))
    dy = draw(st.booleans()) if dyadic is None else dyadic
    n = []
    room = max_cells
    for i in range(nd):
        top = max(min_n, min(max_n, room // (min_n ** (nd - i - 1))))
        k = draw(st.integers(min_n, top))
        n.append(k)
        room = max(1, room // k)
    if big and draw(st.integers(0, 119)) == 119:  # far more cells than usual
        k = max(1, min(16, int((40000 / np.prod(n)) ** (1 / nd))))
        n = [v * k for v in n]
    pix = [draw(st.sampled_from(DYADIC if dy else DYADIC + UGLY)) for _ in range(nd)]
    if dy:
        cen = [draw(st.integers(-24, 24)) / 4 for _ in range(nd)]
    else:
        cen = [draw(st.one_of(st.integers(-5, 5).map(float), st.floats(-50, 50).map(lambda v: round(v, 3)))) for _ in range(nd)]
    return {"n": n, "pix": pix, "cen": cen, "np": draw(st.integers(1, max_props)), "dy": dy,
            "intgeom": draw(st.booleans())}


def maybe_int(values, on):
    """The same numbers as python ints where they are whole, as users write them."""
    if on and all(float(v) == int(v) for v in values):
        return tuple(int(v) for v in values)
    return tuple(values)


def build(spec, init=True, cls=Grid, **kw):
    side = [k * p for k, p in zip(spec["n"], spec["pix"])]
    g = cls(kw.pop("n_properties", spec["np"]), maybe_int(spec["cen"], spec["intgeom"]), maybe_int(side, spec["intgeom"]),
            maybe_int(spec["pix"], spec["intgeom"]), **kw)
    if init:
        g.init_grid()
    return g


def edges(spec, i):
    n, p, c = spec["n"][i], spec["pix"][i], spec["cen"][i]
    return (np.arange(n + 1) - n / 2) * p + c


def centers(spec, i):
    n, p, c = spec["n"][i], spec["pix"][i], spec["cen"][i]
    return (np.arange(n) + 0.5 - n / 2) * p + c


@st.composite
def point_lists(draw, spec, axes=None, max_size=12, outside=True):
    """Points given as [cell index, fraction of the cell] per axis, so that the
    cell a point lies in is known without any floating-point arithmetic."""
    axes = list(range(len(spec["n"]))) if axes is None else axes
    k = draw(st.integers(0, max_size))
    fr = [0.5, 0.25, 0.75, 0.03125, 0.96875] + ([0.0, 0.0] if spec["dy"] else [])
    pts = []
    for _ in range(k):
        p = []
        out = outside and draw(st.integers(0, 5)) == 0
        for a in axes:
            n = spec["n"][a]
            lo, hi = (-2, n + 1) if out else (0, n - 1)
            p.append([draw(st.integers(lo, hi)), draw(st.sampled_from(fr))])
        pts.append(p)
    return pts


def many_points(spec, seed, k, axes=None):
    """Like a long list of point_lists."""
    axes = list(range(len(spec["n"]))) if axes is None else axes
    r = rng(seed)
    idx = np.array([r.integers(-(spec["n"][a] > 2), spec["n"][a] + (spec["n"][a] > 2), k) for a in axes]).T
    fr = r.choice([0.5, 0.25, 0.75, 0.03125, 0.96875], idx.shape)
    return [[[int(a), float(b)] for a, b in zip(*x)] for x in zip(idx, fr)]


MANY = st.integers(0, 199).map(lambda k: {199: 12000, 198: 3000}.get(k, 0))


def coords(spec, pts, axes=None):
    axes = list(range(len(spec["n"]))) if axes is None else axes
    out = np.zeros((len(pts), len(axes)))
    for j, p in enumerate(pts):
        for i, a in enumerate(axes):
            k, f = p[i]
            n, px, c = spec["n"][a], spec["pix"][a], spec["cen"][a]
            out[j, i] = c + (k + f - n / 2) * px
    return out


def cell_of(spec, pts, axes=None):
    """Cell index tuple per point, or None for a point out of bounds."""
    axes = list(range(len(spec["n"]))) if axes is None else axes
    res = []
    for p in pts:
        idx = tuple(q[0] for q in p)
        res.append(idx if all(0 <= k < spec["n"][a] for k, a in zip(idx, axes)) else None)
    return res


def check_lattice(t, g, n, pix, cen, what="grid"):
    """All of a grid's geometry describes the lattice with n cells of size pix about cen."""
    nd = len(n)
    t.equal(int(g.n_dimensions), nd, f"{what} number of dimensions")
    t.close(np.asarray(g.n_pixels, float), np.asarray(n, float), f"{what} n_pixels", rtol=0)
    t.close(np.asarray(g.pixel_size, float), np.asarray(pix, float), f"{what} pixel_size", rtol=1e-9)
    side = np.asarray(n) * np.asarray(pix)
    t.close(np.asarray(g.side_length, float), side, f"{what} side_length", rtol=1e-9)
    scale = np.abs(np.asarray(cen)) + side
    for i in range(nd):
        tol = 1e-9 * scale[i]
        t.close(float(g.center_point[i]), cen[i], f"{what} center_point[{i}]", rtol=0, atol=tol)
        e = (np.arange(n[i] + 1) - n[i] / 2) * pix[i] + cen[i]
        t.close(g.axes[i], e, f"{what} cell edges of axis {i}", rtol=0, atol=tol)
        t.close(g.axes_centers[i], (e[1:] + e[:-1]) / 2, f"{what} cell centers of axis {i}", rtol=0, atol=tol)
        f = np.sort(np.fft.fftfreq(n[i], pix[i]))
        d = 1 / side[i]
        t.close(g.fourier_axes_centers[i], f, f"{what} Fourier cell centers of axis {i}", rtol=1e-9, atol=1e-9 * d)
        t.close(g.fourier_axes[i], np.concatenate((f - d / 2, [f[-1] + d / 2])), f"{what} Fourier cell edges of axis {i}", rtol=1e-9, atol=1e-9 * d * n[i])
    t.equal(len(g.axes), nd, f"{what} number of axes")
    if g.grid_active:
        t.equal(tuple(g.grid.shape), tuple(int(k) for k in n) + (int(g.n_properties),), f"{what} data shape")


def disturb(g):
    """Change everything a grid holds through its own operations, so that anything shared with another grid shows there."""
    if g.grid_active:
        g.grid[...] = -7
    nd = int(g.n_dimensions)
    for i in range(nd):
        if not g.fourier_space[i] and g.n_pixels[i] > 1:
            g.crop(i, min=float(g.axes_centers[i][1]) - 1e-3 * float(g.pixel_size[i]))
        g.scale_axis(i, 3.5, axunits="changed")
        g.pad(i, 1)
    if nd and g.grid_active and not g.is_power_spectrum:
        g.fourier_transform(list(range(nd)))
    if g.grid_active:
        g.add_new_prop()
        g.grid[...] = 9
