"""P10: save/load round trips, and the loaded grid behaving like the original afterwards."""
import os
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, coords, grid_specs
from simim.map import LoadGrid
import simim.map as smap


@st.composite
def cases(draw):
    spec = draw(grid_specs(max_dim=3, max_cells=80, max_n=6, max_props=3, big=True))
    nd = len(spec["n"])
    step = st.sampled_from(["pad", "crop", "scale", "newprop", "ft", "power", "cat", "collapse"])
    follow = st.sampled_from(["pad", "crop", "scale", "newprop", "ft", "power", "cat", "sample", "copy", "collapse", "reload", "sum", "avg"])
    return {"spec": spec, "pre": draw(st.lists(step, max_size=3)), "post": draw(st.lists(follow, min_size=1, max_size=4)), "seed": draw(SEED),
            "active": draw(st.sampled_from([True, True, True, False])), "compress": draw(st.booleans()), "ext": draw(st.booleans()),
            "axu": draw(st.sampled_from([None, "Mpc", "per", "mixed"])), "gu": draw(st.booleans()), "exists": draw(st.sampled_from(["no", "refuse", "overwrite"])),
            "kind": draw(st.sampled_from(["float", "complex"]))}


def same(t, a, b, what):
    for name in ("n_properties", "n_dimensions", "n_objects"):
        t.equal(int(getattr(b, name)), int(getattr(a, name)), f"{what}: {name}")
    for name in ("n_pixels", "pixel_size", "side_length", "center_point"):
        x, y = np.asarray(getattr(a, name), float), np.asarray(getattr(b, name), float)
        t.close(y, x, f"{what}: {name}", rtol=1e-9, atol=1e-12 * (1 + np.abs(np.asarray(a.side_length)).max(initial=0)))
    for name in ("axes", "axes_centers", "fourier_axes", "fourier_axes_centers"):
        x, y = getattr(a, name), getattr(b, name)
        t.equal(len(y), len(x), f"{what}: number of {name}")
        for i in range(len(x)):
            t.close(y[i], x[i], f"{what}: {name}[{i}]", rtol=1e-9, atol=1e-9 * np.abs(x[i]).max(initial=0))
    for name in ("axunits", "fourier_axunits", "gridunits"):
        t.equal(list(getattr(b, name)), list(getattr(a, name)), f"{what}: {name}")
    t.equal([bool(v) for v in b.fourier_space], [bool(v) for v in a.fourier_space], f"{what}: axis spaces")
    t.equal(bool(b.is_power_spectrum), bool(a.is_power_spectrum), f"{what}: power-spectrum flag")
    t.equal(bool(b.grid_active), bool(a.grid_active), f"{what}: whether there is data")
    if a.grid_active:
        t.equal(b.grid.dtype.kind, a.grid.dtype.kind, f"{what}: kind of data")
        t.close(b.grid, a.grid, f"{what}: data", rtol=1e-9, atol=1e-11 * np.abs(a.grid).max(initial=0))


def apply(g, op, spec, seed):
    """A valid call of this kind on g, or None when there is none; returns (grid, result)."""
    nd = int(g.n_dimensions)
    if nd == 0:
        return g, None
    if op == "pad":
        g.pad(nd - 1, 1)
    elif op == "crop":
        if g.fourier_space[0] or g.n_pixels[0] < 2:
            return g, None
        g.crop(0, min=float(g.center_point[0] - 0.25 * g.pixel_size[0]))
    elif op == "scale":
        g.scale_axis(0, 2.0)
    elif op == "newprop":
        if g.grid_active:
            g.add_new_prop(bulk(seed, tuple(int(k) for k in g.n_pixels)))
        else:
            g.add_new_prop()
    elif not g.grid_active:
        return g, None
    elif op == "ft":
        if g.is_power_spectrum:
            return g, None
        g.fourier_transform(0)
    elif op == "power":
        if g.is_power_spectrum:
            return g, None
        g = g.power_spectrum()
    elif op == "cat":
        if np.any(g.fourier_space) or np.iscomplexobj(g.grid):
            return g, None
        g.add_from_cat(np.array([[float(c) + 0.1 * float(p) for c, p in zip(g.center_point, g.pixel_size)]] * 2), np.array([1.0, 2.5]))
    elif op == "collapse":
        if nd < 2 or np.any(g.fourier_space):
            return g, None
        g.collapse_dimension(0)
    elif op == "sample":
        return g, g.sample(np.array([[float(c) + 0.1 * float(p) for c, p in zip(g.center_point, g.pixel_size)]]))
    elif op == "copy":
        g = g.copy()
    elif op == "sum":
        g.sum_properties()
    elif op == "avg":
        if len(set(bool(b) for b in g.fourier_space)) > 1 or max(g.n_pixels) < 2:
            return g, None
        # edges between which rounding decides nothing
        reach = np.sqrt(sum((n / 2 * (1 / (n * p) if f else p))**2 for n, p, f in zip(g.n_pixels, g.pixel_size, g.fourier_space)))
        return g, g.spherical_average(shells=reach * np.array([0, 0.31713, 0.61137, 1.03719]))[1]
    return g, None


def run(case, t):
    spec = case["spec"]
    nd = len(spec["n"])
    kw = {}
    if case["axu"]:
        kw["axunits"] = {"Mpc": "Mpc", "per": tuple("u%d" % i for i in range(nd)), "mixed": tuple([None] + ["GHz"] * (nd - 1))}[case["axu"]]
        if case["axu"] == "mixed" and nd == 1:
            del kw["axunits"]
    if case["gu"]:
        kw["gridunits"] = tuple("g%d" % i for i in range(spec["np"]))
    g = build(spec, init=case["active"], **kw)
    if case["active"]:
        g.grid = bulk(case["seed"], g.grid.shape, case["kind"])
    for op in case["pre"]:
        g, _ = apply(g, op, spec, case["seed"] + 1)
    if int(g.n_dimensions) == 0:
        return
    path = os.path.join(t.scratch, "g.npz" if case["ext"] else "g")
    real = os.path.join(t.scratch, "g.npz")
    skw = {"compress": True} if case["compress"] else {}
    if case["exists"] != "no":
        other = build(dict(spec, cen=[c + 1 for c in spec["cen"]]))
        other.save(path)
        old = open(real, "rb").read()
        if case["exists"] == "refuse":
            t.raises(lambda: g.save(path, **skw), "saving over an existing file")
            t.check(open(real, "rb").read() == old, "a refused save leaves the file as it was")
            same(t, other, LoadGrid(real), "file kept by a refused save")
        skw["overwrite"] = True
    before = g.copy()
    g.save(path, **skw)
    h = LoadGrid(real)
    same(t, g, h, "loaded grid")
    if not np.any(g.fourier_space):
        same(t, before, g, "grid after saving")
    for op in case["post"]:
        if op == "reload":
            p2 = os.path.join(t.scratch, "again.npz")
            h.save(p2, overwrite=True)
            h = LoadGrid(p2)
            same(t, g, h, "grid saved and loaded again")
            continue
        g, r1 = apply(g, op, spec, case["seed"] + 2)
        h, r2 = apply(h, op, spec, case["seed"] + 2)
        same(t, g, h, f"loaded grid after {op}")
        if r1 is not None:
            t.close(r2, r1, f"result of {op} on the loaded grid", rtol=1e-9, atol=1e-12)
        if int(g.n_dimensions) == 0:
            break
    t.label("data" if case["active"] else "no data", "Fourier" if np.any(before.fourier_space) else "map", case["exists"],
            "compressed" if case["compress"] else "plain", *["then " + o for o in case["post"]])
    t.nontrivial(case["active"] and (len(case["pre"]) > 0 or spec["np"] > 1))


CHECKS = [Check("roundtrip", cases(), run, quick=16000, thorough=50000)]
