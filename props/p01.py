"""P01: catalog gridding against a cell-by-cell reference, over histories of additions."""
import itertools
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, sizes, build, bulk, cell_of, coords, grid_specs, point_lists, check_lattice, rng
from simim.map import Gridder, gridder_function


@st.composite
def histories(draw):
    spec = draw(grid_specs())
    ops = []
    np_now = spec["np"]
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["add", "add", "add", "new", "empty", "ints", "blank"]))
        if kind == "blank":
            ops.append({"op": "blank"})
            np_now += 1
            continue
        pts = [] if kind == "empty" else draw(point_lists(spec))
        op = {"op": "add", "pts": pts, "seed": draw(SEED), "kind": draw(st.sampled_from(["float", "int"])), "new": kind == "new" or (kind == "empty" and draw(st.booleans()))}
        if kind == "ints":
            op["ints"] = [[draw(st.integers(-12, 12)) for _ in spec["n"]] for _ in range(draw(st.integers(1, 6)))]
        if op["new"]:
            op["cols"] = draw(st.integers(0, 3))  # 0: no values, counts
            op["props"] = None
            np_now += max(1, op["cols"])
        else:
            sel = draw(st.one_of(st.none(), st.lists(st.integers(0, np_now - 1), min_size=1, max_size=np_now, unique=True)))
            op["props"] = sel
            k = np_now if sel is None else len(sel)
            op["cols"] = draw(st.sampled_from([0, 1, -1, k, k]))  # -1: one-dimensional values
        op["scalarprop"] = draw(st.booleans())
        ops.append(op)
    return {"spec": spec, "ops": ops}


def frac_cells(spec, ints):
    """Cells of integer positions, in exact arithmetic on the dyadic lattice."""
    from fractions import Fraction as F
    res = []
    for p in ints:
        idx = []
        for x, n, px, c in zip(p, spec["n"], spec["pix"], spec["cen"]):
            q = (F(x) - F(c)) / F(px) + F(n, 2)
            idx.append((q.numerator // q.denominator, q))
        # the position must not sit on an edge unless the arithmetic is exact
        exact = spec["dy"]
        if not exact and any(abs(q - round(q)) < F(1, 10**6) for _, q in idx):
            return None
        idx = tuple(i for i, _ in idx)
        res.append(idx if all(0 <= k < n for k, n in zip(idx, spec["n"])) else None)
    return res


def run_history(case, t):
    spec, ops = case["spec"], case["ops"]
    g = build(spec)
    model = np.zeros(tuple(spec["n"]) + (spec["np"],))
    absmodel = np.zeros_like(model)
    count = 0
    inside_total = outside_total = 0
    for k, op in enumerate(ops):
        if op["op"] == "blank":
            g.add_new_prop()
            z = np.zeros(tuple(spec["n"]) + (1,))
            model = np.concatenate((model, z), -1)
            absmodel = np.concatenate((absmodel, z), -1)
            t.label("blank property")
            continue
        if "ints" in op:
            pos = np.array(op["ints"])
            cells = frac_cells(spec, op["ints"])
            if cells is None:
                continue
            t.label("integer positions")
        else:
            pos = coords(spec, op["pts"])
            cells = cell_of(spec, op["pts"])
        n = len(pos)
        if n == 0:
            t.label("empty catalog")
        cols = op["cols"]
        if cols == 0:
            vals = None
            v2 = np.ones((n, 1))
        elif cols == -1:
            vals = bulk(op["seed"], (n,), op["kind"])
            v2 = vals.reshape(-1, 1)
        else:
            vals = bulk(op["seed"], (n, cols), op["kind"])
            v2 = vals
        pos0 = pos.copy()
        vals0 = None if vals is None else vals.copy()
        kw = {}
        if op["new"]:
            kw["new_props"] = True
            if op["seed"] % 4 == 0:  # documented to be ignored
                kw["properties"] = [0]
            z = np.zeros(tuple(spec["n"]) + (v2.shape[1],))
            targets = list(range(model.shape[-1], model.shape[-1] + v2.shape[1]))
            model = np.concatenate((model, z), -1)
            absmodel = np.concatenate((absmodel, z), -1)
            t.label("new property")
        else:
            targets = list(range(model.shape[-1]))
            if op["props"] is not None:
                targets = op["props"]
                kw["properties"] = targets[0] if (len(targets) == 1 and op["scalarprop"]) else list(targets)
                t.label("property selection")
                if v2.shape[1] > 1 and targets != list(range(len(targets))):
                    t.label("columns to permuted or later properties")
        g.add_from_cat(pos, vals, **kw)
        for j, c in enumerate(cells):
            if c is None:
                outside_total += 1
                continue
            inside_total += 1
            count += 1
            for i, p in enumerate(targets):
                v = v2[j, 0] if v2.shape[1] == 1 else v2[j, i]
                model[c + (p,)] += v
                absmodel[c + (p,)] += abs(v)
        t.equal(int(g.n_properties), model.shape[-1], f"number of properties after step {k}")
        t.close(g.grid, model, f"cell values after step {k}", rtol=1e-12, atol=1e-12 * (1 + absmodel.max(initial=0)))
        t.equal(int(g.n_objects), count, f"object count after step {k}")
        t.close(pos, pos0, "the caller's positions", rtol=0)
        if vals is not None:
            t.close(vals, vals0, "the caller's values", rtol=0)
    check_lattice(t, g, spec["n"], spec["pix"], spec["cen"])
    if outside_total:
        t.label("objects out of bounds")
    t.label(f"{len(spec['n'])}-d")
    t.nontrivial(inside_total > 0 and len(ops) > 1)


@st.composite
def gridder_cases(draw):
    spec = draw(grid_specs(max_dim=3))
    pts = draw(point_lists(spec, max_size=10))
    return {"spec": spec, "pts": pts, "seed": draw(SEED), "cols": draw(st.integers(0, 3)), "perm": draw(SEED),
            "split": draw(st.integers(0, 10)), "auto": draw(st.sampled_from(["none", "none", "both", "center", "side"])),
            "flat": draw(st.booleans()), "apix": draw(st.sampled_from([0.3, 0.5, 1.0, 1, 2.5])), "ints": draw(st.booleans())}


def run_gridder(case, t):
    spec, pts = case["spec"], case["pts"]
    nd = len(spec["n"])
    pos = coords(spec, pts)
    n = len(pos)
    cols = case["cols"]
    vals = None if cols == 0 else bulk(case["seed"], (n, cols), "float")
    ref = np.ones((n, 1)) if vals is None else vals
    if case["auto"] != "none":
        if n == 0:
            return
        # fitted to the data: nothing is lost
        if case["ints"]:
            pos = np.array([[q[0] for q in p] for p in pts])
        if case["flat"]:
            pos[:, 0] = pos[0, 0]
        px = case["apix"]
        kw = {}
        if case["auto"] == "center":
            kw["side_length"] = [float((np.floor(np.ptp(pos[:, i]) / px) + 2) * px) for i in range(nd)]
        if case["auto"] == "side" and not case["flat"]:
            kw["center_point"] = [float((pos[:, i].min() + pos[:, i].max()) / 2) for i in range(nd)]
        # huge point spreads at this cell size would only cost memory
        if np.prod([np.ptp(pos[:, i]) / px + 2 for i in range(nd)]) > 2e5:
            return
        g = Gridder(pos, vals, pixel_size=px, **kw)
        t.equal(int(g.n_objects), n, "a fitted grid's object count")
        t.close(g.grid.sum(axis=tuple(range(nd))), ref.sum(axis=0), "a fitted grid's totals", rtol=1e-9, atol=1e-9)
        for j in range(n):
            for i in range(nd):
                t.check(g.axes[i][0] <= pos[j, i] <= g.axes[i][-1], f"object {j} lies outside the fitted grid")
        t.label("fitted")
        t.nontrivial(n > 1)
        return
    side = [a * b for a, b in zip(spec["n"], spec["pix"])]
    kw = dict(center_point=spec["cen"], side_length=side, pixel_size=spec["pix"])
    if n == 0:
        kw["setndims"] = nd
    g = Gridder(pos, vals, **kw)
    model = np.zeros(tuple(spec["n"]) + (ref.shape[1],))
    cells = cell_of(spec, pts)
    inside = 0
    for j, c in enumerate(cells):
        if c is not None:
            model[c] += ref[j]
            inside += 1
    tol = dict(rtol=1e-12, atol=1e-12 * (1 + np.abs(ref).sum()))
    t.close(g.grid, model, "gridded values", **tol)
    t.equal(int(g.n_objects), inside, "object count")
    check_lattice(t, g, spec["n"], spec["pix"], spec["cen"])
    a, ax = gridder_function(pos, vals, spec["cen"], side, spec["pix"], setndims=nd if n == 0 else None)
    t.close(a, model, "gridder_function values", **tol)
    # order and split of the catalog do not matter
    perm = rng(case["perm"]).permutation(n)
    g2 = Gridder(pos[perm], None if vals is None else vals[perm], **kw)
    t.close(g2.grid, model, "values of the permuted catalog", **tol)
    s = min(case["split"], n)
    if 0 < s < n:
        g3 = Gridder(pos[:s], None if vals is None else vals[:s], **kw)
        g3.add_from_cat(pos[s:], None if vals is None else vals[s:])
        t.close(g3.grid, model, "values of the split catalog", **tol)
        t.equal(int(g3.n_objects), inside, "object count of the split catalog")
        t.label("split")
    t.nontrivial(inside > 1)


@st.composite
def big_cases(draw):
    spec = draw(grid_specs(max_dim=3, max_n=9, max_cells=400))
    return {"spec": spec, "n": draw(sizes(st.integers(200, 2000), large=(9000, 70000, 300000), one_in=25)), "seed": draw(SEED), "spread": draw(st.sampled_from([0.6, 1.0, 1.7])),
            "cols": draw(st.integers(0, 2)), "off": draw(st.integers(0, 5))}


def run_big(case, t):
    """Catalogs of a realistic size against numpy's histogram."""
    spec = case["spec"]
    nd = len(spec["n"])
    r = rng(case["seed"])
    side = np.array(spec["n"]) * np.array(spec["pix"])
    u = (r.uniform(-0.5, 0.5, (case["n"], nd)) * case["spread"])
    # keep clear of cell edges, where rounding decides
    cellu = (u + 0.5) * np.array(spec["n"])
    fr = cellu - np.floor(cellu)
    ok = np.all((fr > 1e-6) & (fr < 1 - 1e-6), axis=1)
    u = u[ok]
    pos = u * side + np.array(spec["cen"])
    vals = None if case["cols"] == 0 else r.normal(size=(len(pos), case["cols"]))
    g = Gridder(pos, vals, center_point=spec["cen"], side_length=side, pixel_size=spec["pix"])
    e = [np.arange(k + 1) / k - 0.5 for k in spec["n"]]
    w = np.ones((len(pos), 1)) if vals is None else vals
    for i in range(w.shape[1]):
        h, _ = np.histogramdd(u, bins=e, weights=w[:, i])
        t.close(g.grid[..., i], h, f"histogram of property {i}", rtol=1e-9, atol=1e-9 * (1 + np.abs(w).sum()))
    inside = int(np.all(np.abs(u) < 0.5, axis=1).sum())
    t.equal(int(g.n_objects), inside, "object count")
    t.nontrivial(0 < inside < len(pos))


CHECKS = [
    Check("history", histories(), run_history, quick=19200, thorough=60000),
    Check("wrapper", gridder_cases(), run_gridder, quick=12800, thorough=40000),
    Check("large", big_cases(), run_big, quick=1280, thorough=4000),
]
