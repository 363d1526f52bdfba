"""P04: sampling a grid at points, against the cell each point was built in."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, cell_of, coords, grid_specs, point_lists, many_points, MANY


@st.composite
def cases(draw):
    spec = draw(grid_specs(max_props=4, big=True))
    k = spec["np"]
    sel = draw(st.one_of(st.none(), st.lists(st.integers(0, k - 1), min_size=1, max_size=k + 1)))
    pts = draw(point_lists(spec, max_size=15))
    if pts and draw(st.booleans()):
        pts = pts + [pts[0]]
    return {"spec": spec, "pts": pts, "sel": sel, "scalar": draw(st.booleans()), "seed": draw(SEED), "aslist": draw(st.booleans()),
            "deco": draw(st.sampled_from(["none", "none", "pad", "crop", "copy"])), "bad": draw(st.integers(0, 9)), "many": draw(MANY)}


def run(case, t):
    spec = case["spec"]
    pts = case["pts"] + many_points(spec, case["seed"], case["many"])
    nd = len(spec["n"])
    g = build(spec)
    data = bulk(case["seed"], g.grid.shape)
    g.grid[...] = data
    pos = coords(spec, pts)
    cells = cell_of(spec, pts)
    if case["deco"] == "pad":
        g.pad(0, 1, val=7.5)
        big = np.full((spec["n"][0] + 2,) + data.shape[1:], 7.5)
        big[1:-1] = data
        data = big
        cells = [None if not all(0 <= q[0] < n for q, n in zip(p[1:], spec["n"][1:])) or not -1 <= p[0][0] <= spec["n"][0]
                 else (p[0][0] + 1,) + tuple(q[0] for q in p[1:]) for p in pts]
    elif case["deco"] == "crop" and spec["n"][0] > 1:
        c = spec["cen"][0] - spec["n"][0] * spec["pix"][0] / 2 + spec["pix"][0]
        g.crop(0, min=c)
        data = data[1:]
        cells = [None if c is None or c[0] == 0 else (c[0] - 1,) + c[1:] for c in cells]
        if spec["n"][0] > 1 and not spec["dy"]:
            pass
    elif case["deco"] == "copy":
        g = g.copy()
    sel = case["sel"]
    cols = list(range(spec["np"])) if sel is None else sel
    arg = pos.tolist() if case["aslist"] and len(pts) else pos
    before = pos.copy()
    kw = {} if sel is None else {"properties": sel[0] if case["scalar"] and len(sel) == 1 else list(sel)}
    out = g.sample(arg, **kw)
    ref = np.full((len(pts), len(cols)), np.nan)
    for j, c in enumerate(cells):
        if c is not None:
            for i, p in enumerate(cols):
                ref[j, i] = data[c + (p,)]
    t.close(out, ref, "samples", rtol=0)
    t.close(g.grid, data, "the grid after sampling", rtol=0)
    t.close(pos, before, "the caller's positions", rtol=0)
    # the result is the caller's to change
    if out.size:
        out[...] = 99.0
        t.close(g.grid, data, "the grid after writing to the samples", rtol=0)
    if case["bad"] == 0:
        t.raises(lambda: g.sample(pos, properties=[spec["np"]]), "sampling a property that does not exist")
        t.raises(lambda: g.sample(pos, properties=[-1]), "sampling a negative property")
        if len(pts):
            t.raises(lambda: g.sample(np.zeros((2, nd + 1))), "positions of the wrong dimension")
    if sel is not None and sel != sorted(set(sel)):
        t.label("permuted or repeated properties")
    nout = sum(c is None for c in cells)
    if nout:
        t.label("points outside")
    t.label(case["deco"], "integer positions" if False else "float positions")
    t.nontrivial(len(pts) > nout > 0 or len(pts) - nout > 1)


@st.composite
def gs_cases(draw):
    spec = draw(grid_specs(max_props=2, big=True))
    return {"spec": spec, "pts": draw(point_lists(spec, max_size=8)), "seed": draw(SEED)}


def run_gs(case, t):
    """A point gridded with positive weight finds at least its own weight where it was put."""
    spec, pts = case["spec"], case["pts"]
    if not pts:
        return
    g = build(spec)
    pos = coords(spec, pts)
    w = bulk(case["seed"], (len(pts),), "pos")
    g.add_from_cat(pos, w)
    s = g.sample(pos)
    tot = {}
    cells = cell_of(spec, pts)
    for c, x in zip(cells, w):
        tot[c] = tot.get(c, 0) + x
    for j, c in enumerate(cells):
        t.close(s[j], np.full(spec["np"], np.nan if c is None else tot[c]), f"sample at object {j}", rtol=1e-12)
    t.nontrivial(any(c is not None for c in cells))


@st.composite
def int_cases(draw):
    nd = draw(st.integers(1, 3))
    n = [draw(st.integers(1, 6)) for _ in range(nd)]
    pts = [[draw(st.integers(-2, 7)) for _ in range(nd)] for _ in range(draw(st.integers(0, 8)))]
    return {"n": n, "pts": pts, "half": draw(st.booleans())}


def run_int(case, t):
    """Whole-number positions on a unit lattice that starts at 0 (or -0.5)."""
    from simim.map import Grid
    n = np.array(case["n"])
    off = 0.5 if case["half"] else 0.0
    g = Grid(1, tuple(n / 2 - off), tuple(n), 1)
    g.init_grid()
    g.grid[..., 0] = np.arange(np.prod(n)).reshape(n)
    pos = np.array(case["pts"], dtype=int).reshape(-1, len(n))
    ref = [[g.grid[tuple(p)][0]] if all(0 <= a < b for a, b in zip(p, n)) else [np.nan] for p in case["pts"]]
    t.close(g.sample(pos), np.array(ref).reshape(-1, 1), "samples at whole-number positions", rtol=0)
    t.nontrivial(len(pos) > 1)


CHECKS = [
    Check("sample", cases(), run, quick=24000, thorough=80000),
    Check("grid_then_sample", gs_cases(), run_gs, quick=6400, thorough=20000),
    Check("integers", int_cases(), run_int, quick=4000, thorough=10000),
]
