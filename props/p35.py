"""P35: requests that are refused or fail."""
import os
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, grid_specs
from vlib import cones, hand
from vlib.faults import differ, tree
from vlib.instr import cubes
from simim.map import Grid

METHODS = {
    "pad": ["axis high", "axis negative", "one too many", "too much", "too much later"],
    "crop": ["fourier", "axis high", "axis negative", "reversed", "above", "below", "between"],
    "scale_axis": ["axis high", "axis negative", "one too many", "units"],
    "copy": ["property high", "property negative"],
    "save": ["exists", "nowhere"],
    "add_new_prop": ["shape", "dimensions"],
    "add_from_cat": ["fourier", "dimensions", "values", "columns", "property high", "property negative", "complex", "text"],
    "add_from_pos_plus_array": ["fourier", "axis high", "dimensions", "values", "channels", "property high", "complex", "text"],
    "add_from_spec_func": ["fourier", "axis high", "dimensions", "arguments", "channels", "spectra", "not callable", "property high", "raises", "complex", "text"],
    "sum_properties": ["property high", "property negative"],
    "sample": ["property high", "property negative", "dimensions"],
    "convolve": ["spectrum", "fourier", "axis high", "axis negative", "source empty", "source dimensions", "source properties", "one too many", "too much"],
    "down_sample": ["fourier", "axis high", "axis negative", "one too many", "mode", "too much", "too much later", "zero"],
    "collapse_dimension": ["axis high", "axis negative", "weights", "weights length", "weights shape", "mode"],
    "fourier_transform": ["spectrum", "axis high", "axis negative"],
    "power_spectrum": ["spectrum", "axis high", "axis negative", "cross type", "cross empty", "cross spectrum", "cross dimensions", "cross properties", "cross pixels"],
    "spherical_average": ["axis high", "axis negative", "center", "weights shape", "no shells", "mode", "decreasing"],
}
WEIRD = ["x", None, {}, [], [[1, 2], [3]], float("nan"), -1, [None], "same", [0.5, "y"]]
#: methods that need data, that need every axis in real space, that need a map
DATA = {"add_from_cat", "add_from_pos_plus_array", "add_from_spec_func", "sum_properties", "sample", "convolve", "collapse_dimension", "fourier_transform", "power_spectrum", "spherical_average"}
REAL = {"add_from_cat", "add_from_pos_plus_array", "add_from_spec_func", "convolve"}
MAP = {"convolve", "fourier_transform", "power_spectrum"}


@st.composite
def gridcases(draw):
    spec = draw(grid_specs(max_dim=3, max_cells=120, max_n=6, max_props=3))
    nd = len(spec["n"])
    m, flaw = draw(st.sampled_from([(m, f) for m in sorted(METHODS) for f in METHODS[m] + ["none", "weird"]]))
    four = [draw(st.integers(0, 5)) == 0 for _ in range(nd)]
    case = {"spec": spec, "active": draw(st.integers(0, 5)) > 0, "four": four, "ps": draw(st.integers(0, 9)) == 0, "units": draw(st.booleans()), "seed": draw(SEED), "m": m, "flaw": flaw, "k": [draw(st.integers(0, 10**6)) for _ in range(4)],
            "weird": draw(st.integers(0, len(WEIRD) - 1)), "in_place": draw(st.booleans()), "new": draw(st.booleans()), "several": draw(st.booleans())}
    if flaw in ("fourier", "spectrum"):
        case.update(active=True, ps=flaw == "spectrum")
    if flaw == "fourier":
        case["four"] = [i == axes_of(case, nd)[0 if m == "crop" else -1] for i in range(nd)]
    return case


def axes_of(case, nd):
    k = case["k"]
    ax = [k[0] % nd]
    if nd > 1 and case["several"]:
        ax.append((ax[0] + 1 + k[1] % (nd - 1)) % nd)
    return ax


def picture(x, depth=0):
    """Everything an object holds, as comparable values."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, dict):
        return ("dict", [(k, picture(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [picture(v, depth + 1) for v in x])
    if isinstance(x, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    if callable(x):
        return ("function", id(x))
    if type(x).__module__.startswith("astropy"):
        return repr(x)
    if hasattr(x, "__dict__") and depth < 8:
        return (type(x).__name__, picture(vars(x), depth + 1))
    return repr(x)


def differences(a, b, name=""):
    """Where two pictures differ, for the message."""
    if a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "dict":
        da, db = dict(a[1]), dict(b[1])
        out = [f"{name}{k} {'gone' if k not in db else 'new'}" for k in sorted(set(da) ^ set(db), key=str)
               if k in da or not str(k).startswith("_")]  # a new private attribute is nobody's business
        for k in da:
            if k in db:
                out += differences(da[k], db[k], f"{name}{k}.")
        return out or ([name + " (order)"] if set(da) == set(db) and list(da) != list(db) else [])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0] and isinstance(a[1], tuple):
        return differences(a[1], b[1], name)
    if isinstance(a, tuple) and a[0] == "array" and isinstance(b, tuple) and b[0] == "array":
        return [f"{name[:-1]}: shape {a[1]} {a[2]} became {b[1]} {b[2]}" if a[1:3] != b[1:3] else f"{name[:-1]}: other values"]
    return [f"{name[:-1]}: {str(a)[:80]} became {str(b)[:80]}"]


def weights_for(g, ax):
    return [np.linspace(1, 2, int(g.n_pixels[a])) for a in ax]


def request(case, g, scratch):
    """-> kwargs of a request to g, whether it must be refused."""
    m, flaw, k = case["m"], case["flaw"], case["k"]
    nd, npr, s = int(g.n_dimensions), int(g.n_properties), case["seed"]
    n = [int(v) for v in g.n_pixels]
    ax = axes_of(case, nd)
    bad = {"axis high": nd + k[2] % 2, "axis negative": -1 - k[2] % 2}.get(flaw)
    props = [k[1] % npr]
    if flaw.startswith("property"):
        props = props[:k[2] % 2] + [npr + k[3] % 2 if flaw == "property high" else -1 - k[3] % 2]
    badax = (ax[:-1] + [bad]) if bad is not None else ax
    must = flaw not in ("none", "weird", "complex", "text")
    a0 = ax[0]
    pts = bulk(s, (2 + k[3] % 3, nd)) * 0.3 * np.asarray(g.side_length) + np.asarray(g.center_point)
    val = bulk(s + 1, (len(pts),), "float")
    out = np.array([np.r_[a, a] for a in pts])
    if m == "pad":
        p = [1 + k[2] % 2 for _ in ax]
        if flaw == "one too many":
            p = p + [1, 1]
        if flaw.startswith("too much"):
            j = len(ax) - 1 if flaw.endswith("later") else 0
            p[j] = -((n[ax[j]] + 1) // 2) - k[3] % 2
        kw = {"ax": badax, "pad": p, "val": 0.5}
    elif m == "crop":
        e, c, d = g.axes[a0], g.axes_centers[a0], float(g.pixel_size[a0])
        lo, hi = float(e[0]), float(e[-1])
        kw = {"ax": bad if bad is not None else a0, "min": lo + 0.1 * d, "max": hi - 0.1 * d}
        if flaw == "reversed":
            kw.update(min=hi - 0.1 * d, max=lo + 0.1 * d)
        elif flaw == "above":
            kw.update(min=hi + 0.7 * d, max=hi + 3 * d)
        elif flaw == "below":
            kw.update(min=lo - 3 * d, max=lo - 0.7 * d)
        elif flaw == "between":
            j = k[1] % n[a0]
            kw.update(min=float(c[j]) + 0.1 * d, max=float(c[j]) + (0.2 if k[2] % 2 else 0.8) * d)
        if g.fourier_space[a0]:
            must = True
    elif m == "scale_axis":
        f = [2.0, 0.5][:len(ax)]
        kw = {"ax": badax, "factor": f + [3.0, 1.0] if flaw == "one too many" else f, "axunits": ["same", "m", None, ["m", "s"][:len(ax)]][k[1] % 4], "scalecenter": case["new"]}
        if flaw == "units":
            kw["axunits"] = ["a", "b", "c", "d"][:len(ax) + 1 + k[2] % 2]
    elif m in ("copy", "sum_properties"):
        kw = {"properties": props}
        if m == "sum_properties":
            kw["in_place"] = case["in_place"]
    elif m == "save":
        p = os.path.join(scratch, "g.npz")
        if flaw == "exists":
            np.savez(p, a=1)
        kw = {"path": os.path.join(scratch, "no", "such", "g.npz") if flaw == "nowhere" else p}
    elif m == "add_new_prop":
        shape = list(n)
        if flaw == "shape":
            shape[a0] += 1 + k[1] % 2
        shape = shape if k[2] % 2 else shape + [1 + k[3] % 2]
        if flaw == "dimensions":
            shape = shape[:k[1] % nd] if k[2] % 2 else list(n) + [1, 1]
        kw = {"value": bulk(s, shape)}
        must = must or not g.grid_active
    elif m == "add_from_cat":
        v = bulk(s + 2, (len(pts), 1 if case["new"] else len(props)))
        if flaw == "dimensions":
            pts = out[:, :nd + 1] if k[1] % 2 or nd == 1 else pts[:, :-1]
        elif flaw == "values":
            v = v[:-1]
        elif flaw == "columns":
            v = np.tile(v, (1, 3))[:, :max(2, len(props) + 1)]
        elif flaw == "complex":
            v = v + 1j
        elif flaw == "text":
            v = v.astype("U5")
        kw = {"positions": pts, "values": v, "new_props": case["new"] and not flaw.startswith("prop") and flaw not in ("columns", "complex", "text"), "properties": props}
    elif m in ("add_from_pos_plus_array", "add_from_spec_func"):
        pos = np.delete(pts, a0, axis=1)
        if flaw == "dimensions":
            pos = pts if k[1] % 2 or nd == 1 else np.delete(pos, 0, axis=1)
        new = case["new"] and not flaw.startswith("prop") and flaw not in ("complex", "text")
        axn = "ax" if m.endswith("array") else "spec_ax"
        kw = {"positions": pos, axn: bad if bad is not None else a0, "new_prop": new, "properties": props if k[2] % 2 or flaw.startswith("prop") else None}
        if m.endswith("array"):
            v = bulk(s + 2, (len(pts), n[a0]))
            if flaw == "values":
                v = v[:-1]
            elif flaw == "channels":
                v = np.concatenate((v, v[:, :1]), axis=1)
            elif flaw == "complex":
                v = v + 1j
            elif flaw == "text":
                v = v.astype("U5")
            kw["values"] = v
        else:
            cum = bool(k[3] % 2)

            def fn(axis, p):
                if flaw == "raises":
                    raise RuntimeError("user function")
                r = p[:, :1] + np.asarray(axis)[None, :]
                if flaw == "channels":
                    r = np.concatenate((r, r[:, :1]), axis=1)
                elif flaw == "spectra":
                    r = np.concatenate((r, r))
                elif flaw == "complex":
                    r = r + 1j
                elif flaw == "text":
                    r = r.astype("U5")
                return r
            kw.update(spec_function="fn" if flaw == "not callable" else fn, spec_function_arguments=val[:-1] if flaw == "arguments" else val, is_cumulative=cum)
            # (a function that fails for a later chunk of the positions is not a refusal)
            kw["careful_with_memory"] = k[0] % 2 == 0 and len(pts) <= np.prod(np.delete(n, a0))
    elif m == "sample":
        if flaw == "dimensions":
            pts = out[:, :nd + 1] if k[1] % 2 or nd == 1 else pts[:, :-1]
        kw = {"positions": pts, "properties": props}
    elif m == "convolve":
        sn = [1 + k[1] % 2 for _ in n]
        sp = 1
        if flaw == "source dimensions":
            sn = sn + [2]
        if flaw == "source properties":
            sp = npr + 2
            if npr == 1:
                must = False
        src = Grid(sp, [0.0] * len(sn), [float(v) for v in sn], 1.0)
        if flaw != "source empty":
            src.init_grid()
            src.grid[...] = bulk(s + 3, src.grid.shape)
        p = [k[2] % 3 for _ in ax]
        if flaw == "one too many":
            p = p + [1]
        if flaw == "too much":
            p[-1] = -n[ax[-1]]
        kw = {"source": src, "ax": badax, "pad": p, "in_place": case["in_place"]}
    elif m == "down_sample":
        f = [1 + k[3] // 2 % min(2, n[a]) for a in ax]
        if flaw == "one too many":
            f = f + [1, 1]
        elif flaw.startswith("too much"):
            j = len(ax) - 1 if flaw.endswith("later") else 0
            f[j] = n[ax[j]] + 1 + k[2] % 3
        elif flaw == "zero":
            f[-1] = 0
        kw = {"ax": badax, "factor": f, "mode": "median" if flaw == "mode" else ["sum", "average"][k[3] % 2]}
        if any(g.fourier_space[a] for a in ax):
            must = True
    elif m == "collapse_dimension":
        w = weights_for(g, ax)
        if flaw == "weights":
            w = w + [np.ones(2)] if len(ax) > 1 else w
            if len(ax) == 1:
                flaw = "weights length"
        if flaw == "weights length":
            w[-1] = np.ones(n[ax[-1]] + 1)
        elif flaw == "weights shape":
            sh = list(n) + ([npr] if k[1] % 2 else [])
            sh[-1] += 1
            w[-1] = np.ones(sh)
        kw = {"ax": badax, "weights": w if len(ax) > 1 else w[0], "mode": "median" if flaw == "mode" else ["sum", "average"][k[3] % 2], "in_place": case["in_place"]}
    elif m == "fourier_transform":
        kw = {"ax": badax}
    elif m == "power_spectrum":
        cross = None
        if flaw.startswith("cross") or k[1] % 2:
            cn, cp = list(n), npr
            if flaw == "cross dimensions":
                cn = cn + [2]
            elif flaw == "cross properties":
                cp = npr + 1
                if npr == 1:
                    must = False
            elif flaw == "cross pixels":
                j = k[2] % nd
                cn[j] += 1 + (n[j] == 1)
                if n[j] == 1:
                    must = False
            cross = Grid(cp, [0.0] * len(cn), [float(v) for v in cn], 1.0)
            if flaw != "cross empty":
                cross.init_grid()
                cross.grid[...] = bulk(s + 4, cross.grid.shape)
                if k[3] % 3 == 0:
                    cross.fourier_transform([k[3] % len(cn)])
            if flaw == "cross spectrum":
                cross = cross.power_spectrum()
            if flaw == "cross type":
                cross = np.zeros(3)
        kw = {"cross_grid": cross, "ax": badax, "in_place": case["in_place"]}
    else:
        cen = [float(v) for v in g.center_point]
        w = np.ones(n)
        if flaw == "weights shape":
            sh = list(n)
            sh[k[1] % nd] += 1
            w = np.ones(sh)
        kw = {"ax": badax, "center": cen + [0.0] if flaw == "center" else cen, "weights": w, "shells": {"no shells": 0, "decreasing": [2.0, 1.0, 3.0]}.get(flaw, 3), "binmode": "cubic" if flaw == "mode" else "linear"}
        if len({bool(g.fourier_space[a]) for a in ax}) > 1 and bad is None:
            must = True
    if flaw == "weird":
        name = sorted(kw)[k[2] % len(kw)]
        w = WEIRD[case["weird"]]
        if name not in ("path", "source") and not (name == "pad" and isinstance(w, float)):
            kw[name] = w
        must = False
    else:
        must = must or (m in DATA and not g.grid_active) or (m in REAL and any(g.fourier_space)) or (m in MAP and bool(g.is_power_spectrum))
    return kw, must


def make(case):
    spec = case["spec"]
    g = build(spec, init=case["active"], axunits="Mpc" if case["units"] else None)
    if case["active"]:
        g.grid[...] = bulk(case["seed"], g.grid.shape)
        g.n_objects = 3
        ax = [i for i, f in enumerate(case["four"]) if f]
        if case["ps"]:
            g.power_spectrum(ax=ax or None, in_place=True)
        elif ax:
            g.fourier_transform(ax)
    return g


def grids(case, t):
    g = make(case)
    kw, must = request(case, g, t.scratch)
    before, args = picture(g), picture({k: v for k, v in kw.items()})
    files = sorted((f, os.path.getsize(os.path.join(t.scratch, f))) for f in os.listdir(t.scratch))
    what = f"{case['m']} ({case['flaw']}) of a grid of {[int(v) for v in g.n_pixels]} cells, {int(g.n_properties)} properties, Fourier axes {[i for i, f in enumerate(g.fourier_space) if f]}{', power spectrum' if g.is_power_spectrum else ''}{'' if g.grid_active else ', no data'}: " + str({k: (v if not isinstance(v, (np.ndarray, Grid)) else type(v).__name__) for k, v in kw.items()})
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            getattr(g, case["m"])(**kw)
        except Exception as e:
            err = e
        else:
            err = None
    t.label(case["m"], "refused" if err is not None else "done")
    if err is None:
        t.check(not must, f"{what}: not refused")
        return
    bad = differences(before, picture(g))
    t.check(not bad, f"{what}: refused ({type(err).__name__}: {str(err)[:80]}), but changed the grid: {bad[:5]}")
    bad = differences(args, picture({k: v for k, v in kw.items()}))
    t.check(not bad, f"{what}: refused ({type(err).__name__}: {str(err)[:80]}), but changed its arguments: {bad[:5]}")
    now = sorted((f, os.path.getsize(os.path.join(t.scratch, f))) for f in os.listdir(t.scratch))
    t.check(now == files, f"{what}: refused, but wrote {now}, was {files}")
    t.label(f"{case['m']}: {case['flaw']}")
    t.nontrivial(case["active"] and must)


# ------------------------------------------------------------ instruments
IMETHODS = {
    "add_detector": ["name taken", "offsets", "no default", "not callable", "kwargs", "noise name", "reserved"],
    "del_detectors": ["unknown", "repeated"],
    "set_spatial_respones": ["unknown", "repeated", "not callable", "kwargs", "nothing"],
    "set_spectral_respones": ["unknown", "repeated", "not callable", "kwargs", "nothing"],
    "set_noise_functions": ["unknown", "repeated", "not callable", "kwargs", "nothing"],
    "add_field": ["property high", "property negative", "not a grid", "empty", "fourier", "dimensions", "name taken", "spatial unit", "spectral unit", "flux unit", "spatial resolution", "spectral resolution"],
    "del_fields": ["unknown", "repeated"],
    "map_fields": ["unknown", "repeated", "two beams", "no beam", "norm", "fails", "fails", "fails", "shape", "beam shape", "pad"],
    "sample_fields": ["unknown", "repeated", "not mapped", "positions", "no dt", "nothing", "fails", "fails"],
}


class Flaky:
    """Response and noise functions that can be made to fail from the k-th call on."""

    def __init__(self):
        self.left = None

    def tick(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise RuntimeError("user function")

    def functions(self, i):
        def psf(x, y, f, w=1.0):
            self.tick()
            return np.exp(-(x[:, None, None]**2 + (i + 1) * y[None, :, None]**2 / w) + 0 * f[None, None, :])

        def spec(f, a=1.0):
            if np.size(f) < 1000:  # the search for the peak is not part of a map
                self.tick()
            return a / (1 + (np.asarray(f) - 50.0)**2) * (i + 1)

        def noise(k, dt, b=0.0):
            self.tick()
            return np.full(k, b + dt)
        return psf, spec, noise


@st.composite
def instcases(draw):
    m = draw(st.sampled_from(sorted(IMETHODS) + ["map_fields", "sample_fields"]))
    return {"cube": draw(cubes(max_props=2)), "nd": draw(st.integers(1, 3)), "nf": draw(st.integers(1, 3)), "same": draw(st.booleans()), "mapped": draw(st.sampled_from(["none", "first", "all", "all", "stale"])), "defaults": draw(st.booleans()), "units": draw(st.booleans()),
            "res": draw(st.booleans()), "seed": draw(SEED), "m": m, "flaw": draw(st.sampled_from(IMETHODS[m] + ["none", "weird"])), "k": [draw(st.integers(0, 10**6)) for _ in range(4)], "weird": draw(st.integers(0, len(WEIRD) - 1))}


def instrument(case, fl):
    from simim.instrument import Instrument
    cube, u = case["cube"], case["units"]
    kw = dict(spatial_unit="deg", spectral_unit="GHz", flux_unit="Jy") if u else dict(spatial_unit=None, spectral_unit=None, flux_unit=None)
    fs = [fl.functions(0 if case["same"] else i) for i in range(4)]
    if case["defaults"]:
        kw.update(default_spatial_response=fs[3][0], default_spatial_kwargs={"w": 2.0}, default_spectral_response=fs[3][1], default_spectral_kwargs={}, default_noise_function="white", default_noise_kwargs={"rms": 1.0})
    if case["res"]:
        kw.update(best_spatial_res=max(cube["pix"][:2]) * 1.01, best_spectral_res=cube["pix"][2] * 1.01)
    ins = Instrument(**kw)
    for i in range(case["nd"]):
        f = fs[0] if case["same"] else fs[i]
        ins.add_detector(f"d{i}", spatial_response=f[0], spatial_kwargs={"w": 1.0 + (i % 2)}, spectral_response=f[1], spectral_kwargs={"a": 2.0}, noise_function=f[2], noise_kwargs={"b": 1.0}, nominal_frequency=1.0, pointing_offsets=(0, 0.1 * (i % 2)))
    for i in range(case["nf"]):
        ins.add_field(cubegrid(case, i, u), name=f"f{i}", field_property_idx=(case["k"][3] + i) % cube["np"])
    if case["mapped"] != "none":
        ins.map_fields(*(["f0"] if case["mapped"] == "first" else []), kernel_size=3)
    if case["mapped"] == "stale":
        ins.set_spectral_respones("d0", spectral_response=fs[2][1])
    return ins, fs


def cubegrid(case, i, u, **kw):
    g = build(case["cube"], axunits=["deg", "deg", "GHz"] if u else None, gridunits="Jy" if u else None, **kw)
    if g.grid_active:
        g.grid[...] = bulk(case["seed"] + i, g.grid.shape)
    return g


def instrequest(case, ins, fs):
    m, flaw, k, u = case["m"], case["flaw"], case["k"], case["units"]
    must = flaw not in ("none", "weird")
    a, kw = [], {}
    dets, fields = [f"d{i}" for i in range(case["nd"])], [f"f{i}" for i in range(case["nf"])]
    names = dets if m in ("del_detectors",) or m.startswith("set") else fields
    some = names[k[0] % len(names):][:1 + k[1] % 3]
    if flaw == "unknown":
        some = some[:k[2] % 2] + ["nobody"] + some[k[2] % 2:]
    elif flaw == "repeated":
        some = some + some[-1:]
    if m == "add_detector":
        kw = {"name": "new", "spatial_response": fs[2][0], "spectral_response": fs[2][1], "noise_function": fs[2][2], "spatial_kwargs": {}, "spectral_kwargs": {"a": 3.0}, "noise_kwargs": {}, "pointing_offsets": (0.1, 0.2)}
        which = [("spatial_response", "spatial_kwargs"), ("spectral_response", "spectral_kwargs"), ("noise_function", "noise_kwargs")][k[0] % 3]
        if flaw == "name taken":
            kw["name"] = "d0"
        elif flaw == "reserved":
            kw["name"] = "instrument"
        elif flaw == "offsets":
            kw["pointing_offsets"] = (0.1, 0.2, 0.3)[:1 + 2 * (k[1] % 2)]
        elif flaw == "no default":
            kw[which[0]] = None
            must = not case["defaults"]
        elif flaw == "not callable":
            kw[which[0]] = 5.0
        elif flaw == "kwargs":
            kw[which[1]] = [1, 2]
        elif flaw == "noise name":
            kw["noise_function"] = "pink"
    elif m == "del_detectors":
        a = some
    elif m.startswith("set"):
        i = ["set_spatial_respones", "set_spectral_respones", "set_noise_functions"].index(m)
        fn, kn = ["spatial_response", "spectral_response", "noise_function"][i], ["spatial_kwargs", "spectral_kwargs", "noise_kwargs"][i]
        a = some + (["instrument"] if k[3] % 2 else [])
        kw = {fn: {"not callable": "nonsense", "nothing": None}.get(flaw, fs[2][i]), kn: "w=3" if flaw == "kwargs" else {}}
    elif m == "add_field":
        g = cubegrid(case, 9, u)
        kw = {"grid": g, "name": "new", "field_property_idx": k[0] % case["cube"]["np"], "in_place": bool(k[1] % 2)}
        if flaw.startswith("property"):
            kw["field_property_idx"] = case["cube"]["np"] + k[2] % 2 if flaw.endswith("high") else -1 - k[2] % 2
        elif flaw == "not a grid":
            kw["grid"] = g.grid
        elif flaw == "empty":
            kw["grid"] = cubegrid(case, 9, u, init=False)
        elif flaw == "fourier":
            g.fourier_transform([k[2] % 3])
        elif flaw == "dimensions":
            kw["grid"] = g.collapse_dimension(k[2] % 3, in_place=False)
        elif flaw == "name taken":
            kw["name"] = fields[k[2] % len(fields)]
        elif flaw == "spatial unit":
            g.axunits[k[2] % 2] = ["rad", "furlong"][k[0] % 2]
            must = u
        elif flaw == "spectral unit":
            g.axunits[2] = ["Hz", "furlong"][k[0] % 2]
            must = u
        elif flaw == "flux unit":
            g.gridunits = np.array([["mJy", "furlong"][k[0] % 2]] * case["cube"]["np"], dtype=object)
            must = u
        elif flaw == "spatial resolution":
            g.scale_axis(k[2] % 2, 5.0)
            must = case["res"]
        elif flaw == "spectral resolution":
            g.scale_axis(2, 5.0)
            must = case["res"]
    elif m == "del_fields":
        a = some
    elif m == "map_fields":
        a = [] if k[2] % 2 and not flaw in ("unknown", "repeated") else some
        kw = {"kernel_size": 3, "spatial_response_norm": ["peak", "area", "none"][k[3] % 3], "pad": [None, 1][k[1] % 2]}
        if flaw == "two beams":
            kw["beam"] = cubegrid(case, 5, u)
        elif flaw == "no beam":
            kw["kernel_size"] = None
            must = not case["res"]
        elif flaw == "norm":
            kw["spatial_response_norm"] = "sum"
        elif flaw == "pad":
            kw["pad"] = [1, 2, 3]
        elif flaw == "beam shape":
            kw["kernel_size"] = None
            g = cubegrid(case, 5, u)
            g.pad(2, case["cube"]["n"][2] + 1)
            kw["beam"] = g
            must = case["cube"]["n"][2] > 1 or False
            if case["cube"]["n"][2] == 1:
                kw["beam"] = cubegrid(case, 5, u)
        elif flaw in ("fails", "shape"):
            must = False
    else:
        pos = bulk(case["seed"] + 7, (3, 2)) + np.asarray(case["cube"]["cen"][:2])
        a = [] if k[2] % 2 and not flaw in ("unknown", "repeated") else some
        kw = {"dt": 0.5, "sample_signal": True, "sample_noise": True}
        if flaw == "positions":
            pos = [pos[0], np.c_[pos, pos[:, 0]], pos[:, :1]][k[1] % 3]
        elif flaw == "no dt":
            kw["dt"] = None
        elif flaw == "nothing":
            kw.update(sample_signal=False, sample_noise=False)
        elif flaw == "fails":
            must = False
        elif flaw == "not mapped":
            must = False
        want = a or fields
        must = must or any(not ins.maps_consistent.get(f, False) for f in want if f in fields)
        a = [pos] + a
    if flaw == "weird":
        must = m == "sample_fields" and must
        name = sorted(kw)[k[2] % len(kw)] if kw else None
        if name not in (None, "grid", "in_place", "sample_signal", "sample_noise"):
            kw[name] = WEIRD[case["weird"]]
    return a, kw, must


def instruments(case, t):
    import copy
    fl = Flaky()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        ins, fs = instrument(case, fl)
        a, kw, must = instrequest(case, ins, fs)
        if case["m"] == "map_fields" and case["flaw"] == "shape":
            i = case["k"][0] % case["nd"]
            ins.set_spatial_respones(f"d{i}", spatial_response=lambda x, y, f, w=1.0: np.ones((len(x) + 1, len(y), len(f))))
            must = True
        twin = copy.copy(ins)
        twin.maps, twin.maps_consistent = dict(ins.maps), dict(ins.maps_consistent)
        before, args = picture(ins), picture([a, kw])
        fields = [f"f{i}" for i in range(case["nf"])]
        maps = {f: (picture(ins.maps.get(f)), ins.maps_consistent[f]) for f in fields}
        what = f"{case['m']} ({case['flaw']}) of an instrument with {case['nd']} detectors, {case['nf']} fields ({case['mapped']} mapped): {[x if isinstance(x, str) else type(x).__name__ for x in a]} " + str({x: (v if not isinstance(v, (np.ndarray, Grid)) and not callable(v) else type(v).__name__) for x, v in kw.items()})
        if case["flaw"] == "fails":
            fl.left = case["k"][0] % 6
        try:
            getattr(ins, case["m"])(*a, **kw)
            err = None
        except Exception as e:
            err = e
        if fl.left is not None and fl.left < 0 and case["m"] != "add_detector":
            t.check(err is not None, f"{what}: a function failed, but no error")
        fl.left = None
        t.label(case["m"], "refused" if err is not None else "done")
        if err is None:
            t.check(not must, f"{what}: not refused")
            return
        what += f": refused ({type(err).__name__}: {str(err)[:80]}), but"
        if case["m"] == "map_fields":
            # what was finished before may stay
            for f in fields:
                now = (picture(ins.maps.get(f)), ins.maps_consistent[f])
                if now != maps[f]:
                    t.check(now[1], f"{what} the map of {f} changed and is not marked as finished")
                    twin.map_fields(f, **kw)
                    t.check(picture(twin.maps[f]) == now[0], f"{what} the map of {f} is not complete")
                    t.label("some mapped")
            for f in fields:
                ins.maps[f], ins.maps_consistent[f] = twin.maps.get(f), maps[f][1]
                if f not in twin.maps:
                    ins.maps.pop(f)
            now = picture(vars(ins))
            keep = [x for x in vars(ins) if x not in ("maps", "maps_consistent")]
            bad = [x for x in keep if dict(before[1][1])[x] != dict(now[1])[x]]
        else:
            bad = differences(before, picture(ins))
        t.check(not bad, f"{what} changed the instrument: {bad[:5]}")
        bad = differences(args, picture([a, kw]))
        t.check(not bad, f"{what} changed its arguments: {bad[:5]}")
    t.label(f"{case['m']}: {case['flaw']}")
    t.nontrivial(must or case["flaw"] == "fails")


# ------------------------------------------------------------ handlers
HMETHODS = {
    "snap": {
        "make_property": ["exists", "rename", "missing", "fails", "restricted", "length", "names"],
        "write_property": ["not loaded", "exists"],
        "delete_property": ["unknown"],
        "load_property": ["unknown"],
        "return_property": ["unknown"],
        "set_property_range": ["unknown", "bound"],
        "eval_stat": ["unknown", "fails"],
        "extract_keys": ["set"],
        "grid": ["unknown", "limits"],
    },
    "sim": {
        "make_property": ["exists", "protected", "rename", "memory", "missing", "fails"],
        "delete_property": ["unknown", "protected"],
        "set_property_range": ["memory"],
        "snap_stat": ["fails", "unknown"],
        "extract_snap_meta": ["unknown"],
        "z_to_snap": ["high", "low"],
        "get_mass_index": ["unknown"],
        "get_snap": ["unknown"],
        "get_snap_from_z": ["high", "low"],
    },
}
HMETHODS["cone"] = {**HMETHODS["snap"], "eval_stat_evo": ["unknown", "fails", "fails", "outside"], "volume": ["low", "high", "shape", "angle", "aspect"]}


@st.composite
def handcases(draw):
    kind = draw(st.sampled_from(["snap", "snap", "sim", "sim", "cone", "cone"]))
    m, flaw = draw(st.sampled_from([(m, f) for m in sorted(HMETHODS[kind]) for f in HMETHODS[kind][m]]))
    n = draw(st.integers(1, 3))
    return {"kind": kind, "m": m, "flaw": flaw, "n": [draw(st.integers(0, 6)) for _ in range(n)], "seed": draw(SEED), "h": draw(st.sampled_from(hand.HS)), "in_h": draw(st.booleans()), "init": draw(st.booleans()),
            "active": draw(st.booleans()), "mem": draw(st.booleans()), "k": [draw(st.integers(0, 10**6)) for _ in range(4)], "order": draw(st.booleans())}


def handlers(case, t):
    from simim.galprops.galprops import MultiProp, Prop
    from simim.lightcone.lchandler import LCHandler
    from simim.siminterface import SimHandler
    kind, m, flaw, k, ns = case["kind"], case["m"], case["flaw"], case["k"], case["n"]
    base = ["mass", "pos_x", "pos_y", "pos_z", "vel", "tag"]
    late = k[0] % len(ns)  # the snapshot which has something the others don't
    extra = ["rate", "count"] if flaw in ("exists", "protected") else []
    cats = {i: hand.catalog(case["seed"] + i, c, base + (extra if i == late else [])) for i, c in enumerate(ns)}
    boom = {"left": None}

    def fn(vel):
        if boom["left"] is not None:
            boom["left"] -= 1
            if boom["left"] < 0:
                raise RuntimeError("user function")
        return 2.0 * vel
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if kind == "cone":
            cat = hand.catalog(case["seed"], ns[0], base + extra)
            r = np.random.default_rng(case["seed"])
            cat["ra"], cat["dec"] = r.uniform(-0.04, 0.04, (2, ns[0]))
            cat["redshift"] = r.uniform(0.1, 0.5, ns[0])
            file = hand.write_lc(os.path.join(t.scratch, "cones"), "lc", 0, case["h"], 0.3, 0.05, "box", 0.1, 0.5, cat, 0.1, 0.8)
            hand.register_lc(os.path.join(t.scratch, "cones"))
            x = LCHandler("_testbox", "lc", 0, in_h_units=case["in_h"])
            hd = x
        else:
            table = hand.snap_table(hand.cosmology(case["h"]), list(range(len(ns))), [0.3 * (len(ns) - i) for i in range(len(ns))])
            hand.write_sim(os.path.join(t.scratch, "sim"), case["h"], 0.3, 0.05, 50.0, table, cats)
            file = os.path.join(t.scratch, "sim", "data.hdf5")
            hand.register(os.path.join(t.scratch, "sim"))
            init = case["init"] and flaw != "memory"
            x = SimHandler("_testbox", init_snaps=init, in_h_units=case["in_h"])
            hd = x.get_snap(late)
            if kind == "snap":
                x = hd
        # a property of the user's, stored; one in memory
        hd.make_property(Prop("stored", fn, ["vel"]), write_to_disk=True)
        if kind == "sim" and k[1] % 2:
            for i in cats:
                if i != late:
                    x.get_snap(i).make_property(Prop("stored", fn, ["vel"]), write_to_disk=True)
        if case["mem"] and kind != "sim":
            hd.make_property(Prop("memory", fn, ["vel"], units="u", h_dependence=2))
        if kind == "sim" and not init:
            x = SimHandler("_testbox", in_h_units=case["in_h"])
        narrow = case["active"] and kind != "sim" and len(hd.inds_all) > 1
        if narrow or flaw == "restricted":
            hd.set_property_range("mass", pmin=float(np.median(hd.return_property("mass", use_all_inds=True))) if len(hd.inds_all) else 0)
        must = True
        a, kw = [], {}
        many = kind != "sim" and case["order"]
        if m == "make_property":
            names = ["new", "other"]
            if flaw in ("exists", "protected"):
                bad = ["rate", "stored", "count"][k[2] % 3] if flaw == "exists" else ["rate", "count"][k[2] % 2]
                names = ["new", bad] if case["order"] else [bad, "new"]
                kw["overwrite"] = flaw == "protected"
            elif flaw == "rename":
                kw["rename"] = ["x", "y", "z"][:1 + 2 * (k[2] % 2)]
            ret = {"length": lambda vel: (fn(vel), np.zeros(len(vel) + 2)), "names": lambda vel: (fn(vel), fn(vel), fn(vel))}.get(flaw, lambda vel: (fn(vel), fn(vel)))
            a = [MultiProp(names, ret, ["nothing" if flaw == "missing" else "vel"], ["u", "v"], [0, 1])]
            if kind == "sim":
                kw["write"] = flaw != "memory"
            elif flaw == "restricted":
                kw["write_to_disk"] = True
                must = len(hd.inds_active) < len(hd.inds_all)
            if flaw == "length" and len(hd.inds_active) == 0:
                must = False
            if flaw == "fails":
                boom["left"] = 0
        elif m == "write_property":
            hd.load_property("vel")
            hd.make_property(Prop("fresh", fn, ["vel"]))
            bad = "tag" if flaw == "not loaded" else "vel"
            a = ["fresh", bad] if case["order"] else [bad, "fresh"]
        elif m in ("delete_property", "load_property"):
            if kind == "sim" and flaw == "protected":
                a = ["stored", ["rate", "count"][k[2] % 2]]
            elif kind == "sim":
                a = ["stored"]  # there in one snapshot, or all
                must = len(ns) > 1 and not k[1] % 2
            else:
                a = ["stored", "nothing"]
            if not case["order"]:
                a = a[::-1]
        elif m == "return_property":
            a = ["nothing"]
        elif m == "set_property_range":
            a = ["mass" if flaw != "unknown" else "nothing"]
            kw = {"pmin": "low" if flaw == "bound" else 1e11, "reset": bool(k[2] % 2)}
        elif m in ("eval_stat", "snap_stat"):
            a = [lambda q: np.sum(fn(q)), ["nothing" if flaw == "unknown" else "q"]]
            kw = {"kw_remap": {"q": "vel"}}
            if flaw == "fails":
                boom["left"] = k[2] % (len(ns) if kind == "sim" else 1)
        elif m == "extract_keys":
            a = ["everything"]
        elif m == "grid":
            a = ["vel", "nothing"] if flaw == "unknown" else ["vel"]
            if flaw == "limits":
                kw = {"zlim": (0.1, 0.2, 0.3)}
        elif m in ("extract_snap_meta", "get_snap"):
            a = [len(ns) + k[2] % 3]
        elif m == "get_mass_index":
            a = [1e11, len(ns) + k[2] % 3]
        elif m in ("z_to_snap", "get_snap_from_z"):
            a = [0.3 * len(ns) + 0.01 if flaw == "high" else -0.01]
        elif m == "eval_stat_evo":
            bins = [0.1, 0.2, 0.3, 0.5]
            if flaw == "outside":
                bins = [[0.05] + bins, bins + [0.6]][k[2] % 2]
            a = [bins, lambda q, **kws: np.sum(fn(q)), ["nothing" if flaw == "unknown" else "q"]]
            kw = {"kw_remap": {"q": "vel"}, "volume_kw": flaw == "outside", "other_kws": {}}
            if flaw == "fails":
                boom["left"] = k[3] % 3
        elif m == "volume":
            kw = {"low": {"redshift_min": 0.05}, "high": {"redshift_max": 0.55}, "shape": {"shape": "cube"}, "angle": {"open_angle": 0.2}, "aspect": {"aspect_ratio": 1.0}}[flaw]
        what = f"{kind} {m} ({flaw}), {ns} halos: {[v if isinstance(v, (str, int, float, list)) else getattr(v, 'names', 'function') for v in a]} {kw}"
        before, disk, args = picture(x), tree(file), picture([a, kw])
        try:
            getattr(x, m)(*a, **kw)
            err = None
        except Exception as e:
            err = e
        t.label(kind, m, "refused" if err is not None else "done")
        if err is None:
            t.check(not must, f"{what}: not refused")
            return
        what += f": refused ({type(err).__name__}: {str(err)[:80]}), but"
        bad = differences(before, picture(x))
        t.check(not bad, f"{what} changed the handler: {bad[:5]}")
        bad = differ(tree(file), disk)
        t.check(not bad, f"{what} changed the file: {bad[:5]}")
        bad = differences(args, picture([a, kw]))
        t.check(not bad, f"{what} changed its arguments: {bad[:5]}")
    t.label(f"{kind} {m}: {flaw}")
    t.nontrivial(must and sum(ns) > 1)


# ------------------------------------------------------------ light cones
CFLAWS = {"cone": ["mode", "redshifts", "aspect", "angle", "overwrite", "in use", "declined", "simulation"], "sphere": ["mode", "redshifts", "size", "overwrite", "in use", "declined"]}


@st.composite
def conecases(draw):
    kind = draw(st.sampled_from(["cone", "sphere"]))
    s = dict(draw(cones.simulations(zmax=(0.08, 0.12, 0.3), boxes=(30.0, 60.0, 100.0))), n=draw(st.integers(0, 20)))
    return {"kind": kind, "flaw": draw(st.sampled_from(CFLAWS[kind])), "s": s, "mode": draw(st.sampled_from(["box", "circle"] if kind == "cone" else cones.SPHERES)), "over": draw(st.sampled_from(["check", True, False])),
            "old": draw(st.booleans()), "again": draw(st.integers(1, 2)), "k": draw(st.integers(0, 10**6))}


def folder(top):
    """Every file and folder below top, with the contents."""
    out = {}
    for at, dirs, files in os.walk(top):
        for f in files:
            with open(os.path.join(at, f), "rb") as h:
                out[os.path.join(at, f)] = h.read()
        for f in dirs:
            out[os.path.join(at, f)] = None
    return {os.path.relpath(k, top): v for k, v in out.items()}


def makers(case, t):
    import builtins
    from simim.lightcone import LCMaker, SphereMaker
    kind, flaw, k = case["kind"], case["flaw"], case["k"]
    asked = []

    def answer(*a):
        asked.append(a)
        if len(asked) > 3:
            raise RuntimeError("asked again and again")
        return ["maybe", "n"][min(len(asked) - 1, 1)] if k % 2 else "n"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = cones.Sim(case["s"], t.scratch)
        os.makedirs(os.path.join(sim.lcfolder, "old"), exist_ok=True)
        if case["old"]:
            with open(os.path.join(sim.lcfolder, "old", "lc_0000.hdf5"), "wb") as f:
                f.write(bytes(range(200)))
        top = float(np.max(sim.table["redshift_max"]))
        z = np.linspace(0, 3, 6001)
        d = np.interp(z, z, sim.cosmo.comoving_distance(z).value)

        def reach(mpc):
            return float(np.interp(mpc, d, z))
        if kind == "cone":
            good = {"openangle": 0.2 * sim.box / sim.distance(top) * 180 / np.pi, "mode": case["mode"]}
            if case["mode"] == "box" and k % 3:
                good["aspect"] = 0.5
        else:
            good = {"redshift_max": min(top, reach(0.9 * min(1, 1 / sim.h) * sim.box / sim.h / (1 if case["mode"] == "eighth" else 2))), "mode": case["mode"]}
        bad, name, over = dict(good), "new", case["over"]
        who = case["s"]["sim"]
        if flaw == "mode":
            bad["mode"] = ["cube", "sphere" if kind == "cone" else "box", "Box", ""][k % 4]
        elif flaw == "redshifts":
            bad["redshift_max"] = good.get("redshift_max", top) * 0.8
            bad["redshift_min"] = bad["redshift_max"] * [1.001, 1.2][k % 2]
        elif flaw == "aspect":
            bad["aspect"] = [1.01, 2, 10][k % 3]
        elif flaw == "angle":
            bad["openangle"] = [1.02, 2, 10][k % 3] * sim.box / sim.distance(top) * 180 / np.pi
        elif flaw == "size":
            bad["redshift_max"] = reach([1.05, 2][k % 2] * max(1, 1 / sim.h) * sim.box / sim.h / (1 if case["mode"] == "eighth" else 2))
        elif flaw == "overwrite":
            over = ["yes", "no", None, 7][k % 4]
        elif flaw == "in use":
            name, over = "old", False
        elif flaw == "declined":
            name, over = "old", "check"
        elif flaw == "simulation":
            who = "TNG50-1" if k % 2 else "nothing"
        cls = LCMaker if kind == "cone" else SphereMaker
        what = f"{cls.__name__}({who!r}, {name!r}, {bad}, overwrite={over!r}) ({flaw}) for a box of {sim.box} Mpc/h"
        disk = folder(t.scratch)
        real = builtins.input
        builtins.input = answer
        try:
            for i in range(case["again"]):
                del asked[:]
                try:
                    cls(who, name, overwrite=over, **bad)
                    err = None
                except Exception as e:
                    err = e
                t.check(err is not None, f"{what}: not refused")
                what2 = what + f": refused ({type(err).__name__}: {str(err)[:80]})"
                t.check(bool(asked) == (flaw == "declined"), f"{what2}, attempt {i + 1}: questions asked {asked}")
                now = folder(t.scratch)
                diff = sorted(f for f in set(now) | set(disk) if now.get(f, 0) != disk.get(f, 0))
                t.check(not diff, f"{what2}, but changed the files: {diff[:5]}")
            if name == "new":
                # the name is still free
                del asked[:]
                try:
                    m = cls(case["s"]["sim"], name, overwrite=False if k % 2 else "check", **good)
                    err = None
                except Exception as e:
                    err = e
                t.check(err is None and not asked, f"{what2}, then the valid request {good}: {type(err).__name__} {err}, asked {asked}")
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    m.build_lightcones(1, rng=np.random.default_rng(case["s"]["seed"]))
                t.check(os.path.isfile(os.path.join(sim.lcfolder, "new", "lc_0000.hdf5")), f"{what2}, then the valid request {good} builds nothing")
        finally:
            builtins.input = real
    t.label(f"{kind}: {flaw}")
    t.nontrivial(True)


CHECKS = [Check("grids", gridcases(), grids, quick=8000, thorough=120000), Check("instruments", instcases(), instruments, quick=3000, thorough=30000), Check("handlers", handcases(), handlers, quick=2000, thorough=20000), Check("makers", conecases(), makers, quick=250, thorough=4000)]
