"""P02: per-object arrays and spectra along one grid axis."""
import math
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, cell_of, centers, check_lattice, coords, edges, grid_specs, point_lists, rng, many_points, MANY


@st.composite
def common(draw, max_size):
    spec = draw(grid_specs(min_dim=2, max_dim=4, max_n=5, max_cells=150))
    nd = len(spec["n"])
    ax = draw(st.integers(0, nd - 1))
    other = [i for i in range(nd) if i != ax]
    ops = []
    np_now = spec["np"]
    for _ in range(draw(st.integers(1, 3))):
        pts = draw(point_lists(spec, other, max_size=draw(st.sampled_from([0, 3, 8, max_size]))))
        new = draw(st.integers(0, 2)) == 0
        sel = None if new else draw(st.one_of(st.none(), st.lists(st.integers(0, np_now - 1), min_size=1, max_size=np_now, unique=True)))
        if new:
            np_now += 1
        ops.append({"pts": pts, "seed": draw(SEED), "new": new, "props": sel, "scalar": draw(st.booleans()),
                    "neg": draw(st.booleans()), "noprop": draw(st.booleans()), "junk": draw(st.sampled_from([None, None, 0, "last"])) if new else None, "many": draw(MANY)})
    return {"spec": spec, "ax": ax, "ops": ops}


@st.composite
def array_cases(draw):
    c = draw(common(12))
    for o in c["ops"]:
        o["int"] = draw(st.booleans())
    return c


FUNCS = ["const", "linear", "quad", "gauss", "tophat", "noargs"]


@st.composite
def spec_cases(draw):
    c = draw(common(30))
    for o in c["ops"]:
        o["f"] = draw(st.sampled_from(FUNCS))
        o["cum"] = draw(st.booleans())
        o["loop"] = draw(st.booleans())
        o["careful"] = draw(st.booleans())
        o["perm"] = draw(SEED)
    return c


def scalar_f(name, cum, x0, w):
    """density (or its running integral) of one object at one coordinate, plain floats"""
    def f(x, p):
        u = (x - x0) / w
        if name == "const":
            return p[0] * (u if cum else 1.0)
        if name == "noargs":
            return 3.0 * (u if cum else u + 2)
        if name == "linear":
            return p[0] * u + p[1] * u * u / 2 if cum else p[0] + p[1] * u
        if name == "quad":
            return p[0] * u + p[1] * u ** 3 / 3 if cum else p[0] + p[1] * u * u
        c, s = p[1], 0.4
        if name == "gauss":
            return p[0] * 0.5 * (1 + math.erf((u - c) / s)) if cum else p[0] * math.exp(-((u - c) / s) ** 2)
        if name == "tophat":
            return p[0] * min(max(u - c, 0.0), 0.73) if cum else (p[0] if c <= u < c + 0.73 else 0.0)
    return f


def vector_f(name, cum, x0, w):
    erf = np.vectorize(math.erf)

    def f(axis, params):
        n = params.shape[0]
        u = (np.asarray(axis).reshape(1, -1) - x0) / w
        if name == "noargs":
            return np.repeat(3.0 * (u if cum else u + 2), n, axis=0)
        a = params[:, 0].reshape(-1, 1)
        if name == "const":
            return a * (u if cum else np.ones_like(u))
        b = params[:, 1].reshape(-1, 1)
        if name == "linear":
            return a * u + b * u * u / 2 if cum else a + b * u
        if name == "quad":
            return a * u + b * u ** 3 / 3 if cum else a + b * u * u
        if name == "gauss":
            return a * 0.5 * (1 + erf((u - b) / 0.4)) if cum else a * np.exp(-((u - b) / 0.4) ** 2)
        return a * np.clip(u - b, 0.0, 0.73) if cum else np.where((u >= b) & (u < b + 0.73), a, 0.0)
    return f


def apply_ref(model, absmodel, cells, ax, rows, targets):
    inside = 0
    for c, row in zip(cells, rows):
        if c is None:
            continue
        inside += 1
        for k, v in enumerate(row):
            idx = list(c)
            idx.insert(ax, k)
            for p in targets:
                model[tuple(idx) + (p,)] += v
                absmodel[tuple(idx) + (p,)] += abs(v)
    return inside


def run(case, t):
    spec, ax = case["spec"], case["ax"]
    nd = len(spec["n"])
    other = [i for i in range(nd) if i != ax]
    g = build(spec)
    model = np.zeros(tuple(spec["n"]) + (spec["np"],))
    absm = np.zeros_like(model)
    count = 0
    chunk = int(np.prod([spec["n"][i] for i in other]))
    for k, op in enumerate(case["ops"]):
        pts = op["pts"] + many_points(spec, op["seed"], op["many"], other)
        pos = coords(spec, pts, other)
        cells = cell_of(spec, pts, other)
        n = len(pos)
        if n == 0:
            t.label("empty catalog")
        kw = {}
        if op["new"]:
            z = np.zeros(tuple(spec["n"]) + (1,))
            model = np.concatenate((model, z), -1)
            absm = np.concatenate((absm, z), -1)
            targets = [model.shape[-1] - 1]
            kw["new_prop"] = True
            if op.get("junk") is not None:  # documented to be ignored
                kw["properties"] = 0 if op["junk"] == 0 else [model.shape[-1] - 2]
            t.label("new property")
        elif op["props"] is None:
            targets = list(range(model.shape[-1]))
        else:
            targets = op["props"]
            kw["properties"] = targets[0] if len(targets) == 1 and op["scalar"] else list(targets)
            t.label("property selection")
        axarg = ax - nd if op["neg"] else ax
        pos0 = pos.copy()
        if "f" not in op:
            vals = bulk(op["seed"], (n, spec["n"][ax]), "int" if op["int"] else "float")
            v0 = vals.copy()
            if not (ax == nd - 1 and op["noprop"]):
                kw["ax"] = axarg
            g.add_from_pos_plus_array(pos, vals, **kw)
            t.close(vals, v0, "the caller's values", rtol=0)
            rows = v0
        else:
            w = spec["n"][ax] * spec["pix"][ax]
            x0 = float(edges(spec, ax)[0])
            r = rng(op["seed"])
            # top-hat edges stay clear of evaluation points
            par = np.column_stack([r.uniform(0.5, 2, n), r.uniform(-0.2, 0.9, n)]) if n else np.zeros((0, 2))
            name, cum = op["f"], op["cum"]
            grid_x = edges(spec, ax) if cum else centers(spec, ax)
            if name == "tophat":
                uu = (grid_x - x0) / w
                for j in range(n):
                    for e in (0.0, 0.73):
                        if np.any(np.abs(uu - par[j, 1] - e) < 1e-6):
                            par[j, 1] += 3e-6
            f = scalar_f(name, cum, x0, w)
            rows = []
            for j in range(n):
                v = [f(float(x), par[j]) for x in grid_x]
                rows.append(np.diff(v) if cum else np.array(v))
            if not (ax == nd - 1 and op["noprop"]):
                kw["spec_ax"] = axarg
            args = None if name == "noargs" else (par[:, 0] if name == "const" else par)
            a0 = None if args is None else args.copy()
            g.add_from_spec_func(pos, vector_f(name, cum, x0, w), args, is_cumulative=cum, eval_as_loop=op["loop"],
                                 careful_with_memory=op["careful"], **kw)
            if args is not None:
                t.close(args, a0, "the caller's function arguments", rtol=0)
            if op["careful"] and n > chunk:
                t.label("more objects than one chunk")
                if op["new"]:
                    t.label("new property over several chunks")
            t.label("cumulative" if cum else "per cell", "loop" if op["loop"] else "vectorised", name)
        count += apply_ref(model, absm, cells, ax, rows, targets)
        t.close(pos, pos0, "the caller's positions", rtol=0)
        t.equal(int(g.n_properties), model.shape[-1], f"number of properties after step {k}")
        t.close(g.grid, model, f"cell values after step {k}", rtol=1e-8, atol=1e-9 * (1 + absm.max(initial=0)))
        t.equal(int(g.n_objects), count, f"object count after step {k}")
    check_lattice(t, g, spec["n"], spec["pix"], spec["cen"])
    t.label(f"axis {ax} of {nd}")
    t.nontrivial(count > 0)


CHECKS = [
    Check("arrays", array_cases(), run, quick=12000, thorough=40000),
    Check("spectra", spec_cases(), run, quick=16000, thorough=50000),
]
