"""P33: quick-look plots against the data they are of."""
import contextlib
import os
import warnings
import h5py
import matplotlib
matplotlib.use("Agg")
import matplotlib.animation
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection, QuadMesh
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, centers, edges, grid_specs
from vlib import hand, instr
from simim.siminterface import SnapHandler
from simim.instrument import Instrument, Detector

ALL = ["mass", "pos_x", "pos_y", "pos_z", "vel", "tag", "rate", "vol"]


@contextlib.contextmanager
def canvas(t, what):
    """A place to plot: yields a function giving the figures made since, and the animations."""
    plt.close("all")
    made = []
    orig = matplotlib.animation.FuncAnimation.__init__

    def init(self, fig, func, frames=None, init_func=None, *a, **k):
        made.append((func, frames, init_func))
        orig(self, fig, func, frames, init_func, *a, **k)
        self._draw_was_started = True  # none is rendered here
    matplotlib.animation.FuncAnimation.__init__ = init
    style = dict(matplotlib.rcParams)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield (lambda: [plt.figure(i) for i in plt.get_fignums()]), made
            now = dict(matplotlib.rcParams)
            t.check(now == style, f"{what}: settings of matplotlib changed: {[k for k in now if now[k] != style.get(k)][:5]}")
    finally:
        matplotlib.animation.FuncAnimation.__init__ = orig
        plt.close("all")


def meshes(ax):
    """[(corner x, corner y, values)] of the colour maps drawn on an axes."""
    out = []
    for c in ax.collections:
        if hasattr(c, "get_coordinates"):
            k = np.asarray(c.get_coordinates(), float)
            v = np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan)
            out.append((k[..., 0], k[..., 1], v.reshape(k.shape[0] - 1, k.shape[1] - 1)))
    return out


def see(t, ax, xe, ye, values, what, rtol=1e-9, sel=None):
    """The colour map on `ax` shows values[i, j] between the edges xe[i], xe[i+1] and ye[j], ye[j+1]."""
    ms = meshes(ax)
    t.check(len(ms) == 1, f"{what}: {len(ms)} colour maps drawn")
    X, Y, v = ms[0]
    if X.shape[0] > 1 and X.shape[1] > 1 and X[0, 0] == X[0, -1]:  # drawn with rows along x
        X, Y, v = X.T, Y.T, v.T
    t.check(v.shape == (len(ye) - 1, len(xe) - 1), f"{what}: {v.shape[1]} by {v.shape[0]} cells drawn, expected {len(xe) - 1} by {len(ye) - 1}")
    sx, sy = np.ptp(xe), np.ptp(ye)
    if X[0, 0] > X[0, -1] and xe[0] < xe[-1]:
        X, Y, v = X[:, ::-1], Y[:, ::-1], v[:, ::-1]
    if Y[0, 0] > Y[-1, 0] and ye[0] < ye[-1]:
        X, Y, v = X[::-1], Y[::-1], v[::-1]
    t.close(X, np.broadcast_to(xe, X.shape), f"{what}: horizontal places of the cells", rtol=1e-9, atol=1e-7 * sx)
    t.close(Y, np.broadcast_to(np.asarray(ye)[:, None], Y.shape), f"{what}: vertical places of the cells", rtol=1e-9, atol=1e-7 * sy)
    want = values.T
    m = np.ones(want.shape, bool) if sel is None else sel.T
    t.close(v[m], want[m], f"{what}: colours", rtol=rtol, atol=1e-9 * np.max(np.abs(want[m]), initial=0))


# ------------------------------------------------------------ handlers
@st.composite
def handlers(draw):
    return {"n": draw(st.integers(1, 8)), "seed": draw(SEED), "h": draw(st.sampled_from(hand.HS)), "in_h": draw(st.booleans()), "sel": draw(st.one_of(st.none(), st.integers(1, 7))),
            "plots": draw(st.lists(st.fixed_dictionaries({"kind": st.sampled_from(["plot", "hist"]), "x": st.sampled_from(ALL), "ys": st.lists(st.sampled_from(ALL), min_size=1, max_size=3, unique=True),
                                                          "all": st.sampled_from([False, True, None, "compare"]), "way": st.sampled_from([None, True, False]), "log": st.booleans(), "bins": st.integers(1, 5), "save": st.integers(0, 7).map(lambda i: i == 0),
                                                          "shared": st.booleans(), "label": st.booleans()}), min_size=1, max_size=3))}


def handler(case, t):
    h = case["h"]
    cat = hand.catalog(case["seed"], case["n"], ALL)
    path = os.path.join(t.scratch, "d.hdf5")
    with h5py.File(path, "w") as f:
        f.attrs["cosmo_h"] = h
        hand.write_group(f, "Snapshot 0", cat)
    hd = SnapHandler(path, 0, 1.0, hand.cosmology(h), 50.0, in_h_units=case["in_h"])
    active = np.ones(case["n"], bool)
    if case["sel"] is not None:
        top = float(np.sort(cat["vel"])[-min(case["sel"], case["n"])])
        hd.set_property_range("vel", pmin=top)
        active = cat["vel"] >= top

    def val(k, all_, way):
        v = cat[k].astype(float)
        way = case["in_h"] if way is None else way
        v = v if way or not hand.STORED[k][2] else v * h ** hand.STORED[k][2]
        return v if all_ else v[active]
    shared = {"alpha": 0.5}
    for j, q in enumerate(case["plots"]):
        what = f"{q['kind']} of {q['x'] + ' against ' if q['kind'] == 'plot' else ''}{q['ys']} (all={q['all']}, h units {q['way']}, {active.sum()} of {case['n']} active)"
        kw = {}
        if q["way"] is not None:
            kw["in_h_units"] = q["way"]
        if q["all"] is not None and not (q["kind"] == "hist" and q["all"] == "compare"):
            kw["use_all_inds"] = q["all"]
        if q["log"] and any(np.any(val(y, True, None) <= 0) for y in q["ys"]):
            q = dict(q, log=False)  # no logarithm to show
        own = shared if q["shared"] else {"alpha": 0.25}
        before = dict(own)
        if q["label"]:
            kw["axkws"] = {"xlabel": "here", "yscale": "log"}
        if q["save"]:
            kw["save"] = os.path.join(t.scratch, f"p{j}.png")
        with canvas(t, what) as (figs, _):
            if q["kind"] == "plot":
                hd.plot(q["x"], *q["ys"], plotkws=own, **kw)
            else:
                if q["log"]:
                    kw["logtransform"] = True
                hd.hist(*q["ys"], plotkws=own, **kw)
            t.check(own == before, f"{what}: the options given were {before}, are {own}")
            t.check(len(figs()) == 1 and len(figs()[0].axes) == 1, f"{what}: {len(figs())} figures")
            ax = figs()[0].axes[0]
            sets = [True, False] if kw.get("use_all_inds") == "compare" else [bool(kw.get("use_all_inds", False))]
            if q["kind"] == "plot":
                got = [np.asarray(x.get_xydata(), float) for x in ax.lines]
                want = [np.array([val(q["x"], s, q["way"]), val(y, s, q["way"])]).T for y in q["ys"] for s in sets]
                t.check(len(got) == len(want), f"{what}: {len(got)} sets of points, expected {len(want)}")
                for a, b in zip(got, want):
                    t.check(a.shape == b.shape, f"{what}: {len(a)} points, expected {len(b)}")
                    t.close(a, b, f"{what}: points", rtol=3e-6)
                if len(sets) == 2:
                    cs = [x.get_color() for x in ax.lines]
                    t.check(all(a != b for a, b in zip(cs[::2], cs[1::2])), f"{what}: all and active halos in the same colour {cs}")
                t.label("compare" if len(sets) == 2 else "plot")
            else:
                tot = sum(p.get_height() for p in ax.patches)
                sizes = [val(y, sets[0], None) for y in q["ys"]]
                t.close(tot, float(sum(len(v) for v in sizes)), f"{what}: objects in all bars", rtol=0)
                per = len(ax.patches) // len(q["ys"])
                for i, y in enumerate(q["ys"]):
                    v = val(y, sets[0], q["way"])
                    v = np.log10(v) if q["log"] else v
                    if not np.all(np.isfinite(v)):
                        continue
                    bars = ax.patches[i * per:(i + 1) * per]
                    lo, hi = min(b.get_x() for b in bars), max(b.get_x() + b.get_width() for b in bars)
                    if np.ptp(v) > 1e-3 * np.max(np.abs(v)):
                        t.close([lo, hi], [v.min(), v.max()], f"{what}: range of the bars of {y!r}", rtol=1e-5, atol=1e-5 * np.ptp(v))
                    span = max(np.ptp(v), np.max(np.abs(v), initial=0), 1e-3)
                    for b in bars:
                        a, c = b.get_x(), b.get_x() + b.get_width()
                        sure = np.sum((v > a + 1e-5 * span) & (v < c - 1e-5 * span))
                        may = np.sum((v > a - 1e-5 * span) & (v < c + 1e-5 * span))
                        t.check(sure <= b.get_height() <= may, f"{what}: a bar of {y!r} from {a} to {c} counts {b.get_height()} objects, {sure} to {may} are there")
                t.label("hist")
            if q["label"]:
                t.check(ax.get_xlabel() == "here" and ax.get_yscale() == "log", f"{what}: options of the axes have no effect")
            if len(q["ys"]) > 1:
                names = [x.get_text() for x in ax.get_legend().get_texts()] if ax.get_legend() else []
                t.check(sorted(names) == sorted(q["ys"]), f"{what}: legend {names}")
            if q["save"]:
                t.check(os.path.getsize(kw["save"]) > 0, f"{what}: not saved")
        t.check(hd.nhalos_active == int(active.sum()), f"{what}: plotting changed the selection")
        t.close(hd.return_property(q["x"]), val(q["x"], False, None), f"{what}: values afterwards", rtol=3e-6)
    t.nontrivial(case["n"] > 1 and not active.all())


# ------------------------------------------------------------ grids
@st.composite
def gridcases(draw):
    spec = draw(grid_specs(min_dim=2, max_dim=4, max_cells=120, max_n=6))
    nd = len(spec["n"])
    p = draw(st.permutations(list(range(nd))))
    return {"spec": spec, "perm": p, "seed": draw(SEED), "fourier": draw(st.lists(st.integers(0, nd - 1), max_size=2, unique=True)), "power": draw(st.integers(0, 7)) == 0, "prop": draw(st.integers(0, 2)),
            "how": draw(st.sampled_from(["sum", "slice", "animate", "animate", "still"])), "at": draw(st.lists(st.integers(0, 30), min_size=nd, max_size=nd)), "i0": draw(st.integers(0, 30)), "log": draw(st.booleans()),
            "default": draw(st.booleans()), "units": draw(st.booleans()), "scale": draw(st.booleans()), "save": draw(st.integers(0, 7)) == 0}


def shown_edges(g, spec, case, i):
    if case["power"] or i in case["fourier"]:
        n, p = spec["n"][i], spec["pix"][i]
        return (np.arange(n + 1) - n // 2 - 0.5) / (n * p)
    return edges(spec, i)


def gridplots(case, t):
    spec = case["spec"]
    nd = len(spec["n"])
    g = build(spec, **({"axunits": [f"u{i}" for i in range(nd)]} if case["units"] else {}))
    g.grid = bulk(case["seed"], g.grid.shape, "pos" if case["log"] else "float")
    if case["power"]:
        g = g.power_spectrum()
    elif case["fourier"]:
        g.fourier_transform(ax=list(case["fourier"]))
    data = np.array(g.grid)
    pr = case["prop"] % data.shape[-1]
    perm = case["perm"]
    how = case["how"] if nd > 2 or case["how"] in ("sum", "slice") else "sum"
    E = [shown_edges(g, spec, case, i) for i in range(nd)]
    what = f"{how} of a grid {tuple(spec['n'])}{' with axes ' + str(case['fourier']) + ' transformed' if case['fourier'] else ''}"
    if how in ("sum", "slice"):
        ax = [0, 1] if case["default"] else perm[:2]
        rest = [i for i in range(nd) if i not in ax]
        kw = {} if case["default"] else {"ax": list(ax)}
        if pr or not case["default"]:
            kw["property"] = pr
        real = data[..., pr].real
        if how == "sum":
            want = real.sum(axis=tuple(rest))
            if not case["default"]:
                kw["slice_indices"] = "sum"
        else:
            at = [case["at"][i] % spec["n"][i] for i in rest]
            kw["slice_indices"] = at
            want = real[tuple(slice(None) if i in ax else at[rest.index(i)] for i in range(nd))]
        if ax[0] > ax[1]:
            want = want.T
        what += f" along axes {ax}"
        if case["scale"]:
            kw["axkws"], kw["plotkws"] = {"title": "a title"}, {"cmap": "inferno"}
        with canvas(t, what) as (figs, _):
            g.visualize(**kw)
            t.check(len(figs()) == 1, f"{what}: {len(figs())} figures")
            a = figs()[0].axes[0]
            see(t, a, E[ax[0]], E[ax[1]], want, what)
            if case["units"]:
                for lab, i in ((a.get_xlabel(), ax[0]), (a.get_ylabel(), ax[1])):
                    u = f"u{i}" + ("^-1" if case["power"] or i in case["fourier"] else "")
                    t.check(f"[{u}]" in lab and str(i) in lab, f"{what}: axis {i} in {u} is labelled {lab!r}")
            if case["scale"]:
                t.check(a.get_title() == "a title" and a.collections[0].get_cmap().name == "inferno", f"{what}: options without effect")
    else:
        default = case["default"] and nd >= 3
        slide, f0, f1 = (2, 0, 1) if default else perm[:3]
        kw = {} if default else {"slide_dim": slide, "face_dims": [f0, f1]}
        if pr or not default:
            kw["prop_ind"] = pr
        i0 = case["i0"] % spec["n"][slide]
        if i0 or not default:
            kw["i0"] = i0
        if case["log"]:
            kw["logscale"] = True
        if how == "still":
            kw["still"] = True
            if case["save"]:
                kw["save"] = os.path.join(t.scratch, "still.png")
        flat = tuple(i for i in range(nd) if i not in (slide, f0, f1))
        left = sorted((slide, f0, f1))
        cube = data[..., pr].real.sum(axis=flat).transpose([left.index(i) for i in (slide, f0, f1)])
        what += f" along {slide}, faces {f0}, {f1}"
        lg = (lambda v: np.log10(np.where(v > 0, v, 1))) if case["log"] else (lambda v: v)
        with canvas(t, what) as (figs, anims):
            g.animate(**kw)
            t.check(len(figs()) == 1, f"{what}: {len(figs())} figures")
            axes = sorted([a for a in figs()[0].axes if meshes(a)], key=lambda a: a.get_position().x0)
            t.check(len(axes) == 2, f"{what}: {len(axes)} maps")
            side, face = axes

            def frame(i):
                w = f"{what}, slice {i}"
                s = cube.sum(axis=1)
                see(t, side, E[slide], E[f1], lg(s), f"{w}: side", sel=s > 1e-9 if case["log"] else None)
                see(t, face, E[f0], E[f1], lg(cube[i]), f"{w}: face", sel=cube[i] > 1e-9 if case["log"] else None)
                box = np.array(side.lines[0].get_xydata())
                t.close([box[:, 0].min(), box[:, 0].max()], sorted(E[slide][i:i + 2]), f"{w}: marked range", rtol=1e-9, atol=1e-7 * np.ptp(E[slide]))
                x, y = E[slide][i:i + 2], (E[f1][0], E[f1][-1])
                corner = [tuple((np.abs(c - p[j]) <= 1e-7 * np.ptp(e)).argmax() if (np.abs(c - p[j]) <= 1e-7 * np.ptp(e)).any() else -1 for j, (c, e) in enumerate(((np.asarray(x), E[slide]), (np.asarray(y), E[f1])))) for p in box]
                t.check(set(corner) == {(0, 0), (0, 1), (1, 0), (1, 1)} and corner[0] == corner[-1] and all(sum(np.subtract(p, q) != 0) <= 1 for p, q in zip(corner, corner[1:])), f"{w}: marked with {box.tolist()} rather than the box {x} x {y}")
                v = float(face.get_title().split("=")[1].split()[0])
                lo, hi = sorted(E[slide][i:i + 2])
                t.check(lo - .0051 - 1e-9 * abs(lo) <= v <= hi + .0051 + 1e-9 * abs(hi), f"{w}: titled {face.get_title()!r}, is from {lo} to {hi}")
            frame(i0)
            if how == "still":
                t.check(not anims, f"{what}: animated")
                if "save" in kw:
                    t.check(os.path.getsize(kw["save"]) > 0, f"{what}: not saved")
            else:
                t.check(len(anims) == 1, f"{what}: {len(anims)} animations")
                func, frames, first = anims[0]
                frames = list(range(frames)) if isinstance(frames, (int, np.integer)) else list(frames)
                t.check([int(i) for i in frames] == list(range(spec["n"][slide])), f"{what}: frames {frames}")
                if first is not None:
                    first()
                for i in frames[::-1]:
                    func(i)
                    frame(int(i))
        t.label("4D animation" if nd == 4 else "3D animation")
    t.check(np.array_equal(g.grid, data), f"{what}: plotting changed the grid")
    t.label(how)
    t.nontrivial(len(set(spec["n"])) > 1 and max(spec["n"]) > 1)


# ------------------------------------------------------------ light cones
@st.composite
def conecases(draw):
    zmin = draw(st.sampled_from([0.0, 0.25, 1.0]))
    return {"h": draw(st.sampled_from(hand.HS)), "in_h": draw(st.booleans()), "way": draw(st.sampled_from([None, True, False])), "zmin": zmin, "zmax": zmin + draw(st.sampled_from([0.01, 0.0625, 0.2])), "shape": draw(st.sampled_from(["box", "circle"])),
            "angle": draw(st.sampled_from([0.01, 0.05, 0.2])), "n": draw(st.integers(1, 12)), "seed": draw(SEED), "sel": draw(st.one_of(st.none(), st.integers(1, 9))), "all": draw(st.booleans()), "color": draw(st.sampled_from(["mass", "vel"])),
            "cscale": draw(st.sampled_from(["log", "linear"])), "size": draw(st.sampled_from(["mass", "vel"])), "sscale": draw(st.sampled_from(["log", "linear"])), "same": draw(st.booleans())}


def cone(case, t):
    from simim.lightcone.lchandler import LCHandler
    h, n = case["h"], case["n"]
    C = hand.cosmology(h)
    D = lambda z: C.comoving_distance(z).value  # noqa: flat
    r = np.random.default_rng(case["seed"])
    cat = hand.catalog(case["seed"], n, ["mass", "pos_x", "pos_y", "pos_z", "vel", "tag"])
    if case["same"]:
        cat["mass"][:] = cat["mass"][0]
    zh = case["zmin"] + (case["zmax"] - case["zmin"]) * r.uniform(0.001, 0.999, n)
    d = np.array([D(z) for z in zh]) * h
    cat["ra"], cat["dec"] = r.uniform(-.5, .5, n) * case["angle"], r.uniform(-.5, .5, n) * case["angle"]
    cat["redshift"] = zh
    cat["pos_z"] = d.astype("f4")
    cat["pos_x"], cat["pos_y"] = (d * cat["ra"]).astype("f4"), d * cat["dec"]
    root = os.path.join(t.scratch, "cones")
    hand.write_lc(root, "lc", 0, h, 0.3, 0.05, case["shape"], case["zmin"], case["zmax"], cat, case["angle"], 1)
    hand.register_lc(root)
    hd = LCHandler("_testbox", "lc", 0, in_h_units=case["in_h"])
    active = np.ones(n, bool)
    if case["sel"] is not None:
        top = float(np.sort(cat["vel"])[-min(case["sel"], n)])
        hd.set_property_range("vel", pmin=top)
        active = cat["vel"] >= top
    if case["all"]:
        active[:] = True
    in_h = case["in_h"] if case["way"] is None else case["way"]
    f = 1.0 if in_h else 1 / h
    kw = {"colorpropname": case["color"], "colorscale": case["cscale"], "sizepropname": case["size"], "sizescale": case["sscale"]}
    if case["way"] is not None:
        kw["in_h_units"] = case["way"]
    if case["all"]:
        kw["use_all_inds"] = True
    what = f"animation of a {case['shape']} cone (h={h}, default h units {case['in_h']}, asked {case['way']}, {active.sum()} of {n} halos)"
    x, y, z = [cat[k][active].astype(float) * f for k in ("pos_x", "pos_y", "pos_z")]
    ra, dec = cat["ra"][active] * 180 / np.pi * 60, cat["dec"][active] * 180 / np.pi * 60
    full = 1 if in_h else 1 / h
    lo, hi = D(case["zmin"]) * h * full, D(case["zmax"]) * h * full
    with canvas(t, what) as (figs, anims):
        hd.animate(**kw)
        t.check(len(figs()) == 1 and len(anims) == 1, f"{what}: {len(figs())} figures, {len(anims)} animations")
        fig = figs()[0]
        found = {}
        for a in fig.axes:
            for c in a.collections:
                if isinstance(c, PathCollection):
                    o = np.asarray(c.get_offsets(), float)
                    for name, u, v in (("cone", z, x), ("face", x, y), ("sky", ra, dec)):
                        if o.shape == (len(x), 2) and np.allclose(o, np.array([u, v]).T, rtol=3e-6, atol=1e-6 * (np.ptp(v) + abs(v).max(initial=0))):
                            found.setdefault(name, (a, c))
        t.check(set(found) == {"cone", "face", "sky"}, f"{what}: the {sorted({'cone', 'face', 'sky'} - set(found))} view does not show the halos at their places")
        cv = cat[case["color"]][active].astype(float)  # all ranks are the same in either unit system
        for name in found:
            fc = np.asarray(found[name][1].get_facecolors(), float)
            t.check(fc.shape == (len(x), 4) or len(x) == 1, f"{what} ({name}): colours of shape {fc.shape}")
            for i in range(len(x)):
                for k in range(i):
                    if cv[i] == cv[k]:
                        t.check(np.array_equal(fc[i], fc[k]), f"{what} ({name}): halos of equal {case['color']} in colours {fc[i]} and {fc[k]}")
            if len(x) > 1 and np.ptp(cv) > .2 * np.max(np.abs(cv)):
                t.check(not np.array_equal(fc[np.argmin(cv)], fc[np.argmax(cv)]), f"{what} ({name}): halos of least and largest {case['color']} in the same colour")
            t.check(np.array_equal(fc, np.asarray(found["cone"][1].get_facecolors(), float)), f"{what}: colours differ between views")
        sv = cat[case["size"]][active].astype(float)
        ever = np.zeros(len(x))
        func, frames, first = anims[0]
        frames = range(frames) if isinstance(frames, (int, np.integer)) else list(frames)
        if first is not None:
            first()
        a_cone, a_face, a_sky = [found[k][0] for k in ("cone", "face", "sky")]
        seen = np.zeros(len(x), int)
        last = None
        for i in frames:
            func(i)
            w = f"{what}, frame {i}"
            b = np.concatenate([np.asarray(q.get_xydata(), float) for q in a_cone.lines])
            s0, s1 = b[:, 0].min(), b[:, 0].max()
            t.close(s0, lo if last is None else last, f"{w}: slice starts", rtol=1e-5, atol=1e-3)
            last = s1
            t.check(s1 - s0 < 60, f"{w}: slice from {s0} to {s1}")
            for name in ("face", "sky"):
                size = np.broadcast_to(np.asarray(found[name][1].get_sizes(), float), len(x))
                t.check(np.all(np.isfinite(size)), f"{w}: sizes {size}")
                shown = size > 0
                tol = 1e-6 * hi
                must, may = (z > s0 + tol) & (z < s1 - tol), (z > s0 - tol) & (z < s1 + tol)
                t.check(np.all(shown[must]) and not np.any(shown[~may]), f"{w} ({name}): shows halos at distances {np.round(z[shown], 2)}, the slice from {s0:.2f} to {s1:.2f} holds {np.round(z[must], 2)}")
            seen += shown
            ever = np.where(shown, size, ever)
            zm = float(fig._suptitle.get_text().split("=")[1].split()[0])
            mid = (s0 + s1) / 2 / (h * full)  # Mpc
            t.check(abs(D(max(zm, 0)) - mid) < D(max(zm, 0) + .006) - D(max(zm, 0)) + .01, f"{w}: titled {fig._suptitle.get_text()!r}, its middle is at {mid:.2f} Mpc, the redshift's distance {D(max(zm, 0)):.2f}")
            o = np.concatenate([np.asarray(q.get_xydata(), float) for q in a_face.lines])
            t.close(np.abs(o).max(), mid * h * full * case["angle"] / 2, f"{w}: half width of the outline", rtol=1e-3)
            o = np.concatenate([np.asarray(q.get_xydata(), float) for q in a_sky.lines])
            t.close(np.abs(o).max(), case["angle"] / 2 * 180 / np.pi * 60, f"{w}: half width of the outline on the sky", rtol=1e-4)
        t.check(last is not None and last >= hi - 1e-3, f"{what}: the slices end at {last}, the cone at {hi}")
        tol = 2e-6 * hi
        t.check(np.all(seen <= 1) and np.mean(seen) > 0.7, f"{what}: halos shown {seen} times")
        o = np.flatnonzero(seen)
        o = o[np.argsort(sv[o], kind="stable")]
        t.check(np.all(np.diff(ever[o]) >= -1e-5 * ever.max(initial=0)), f"{what}: halos with {case['size']} {sv[o]} have sizes {ever[o]}")
        if len(o) > 1 and np.ptp(sv[o]) > .2 * np.ptp(sv) > .02 * np.max(np.abs(sv)):
            t.check(ever[o[-1]] > ever[o[0]], f"{what}: halos with {case['size']} {sv[o]} have sizes {ever[o]}")
        t.label("all equal" if case["same"] else "cone")
    t.nontrivial(len(x) > 1 and h != 1)


# ------------------------------------------------------------ detectors
@st.composite
def detcases(draw):
    dets = []
    for i in range(draw(st.integers(1, 4))):
        f0 = draw(st.sampled_from([0.05, 3.0, 90.0, 150.5, 220.0, 4e5]))
        shape = ["gauss", {"fwhmx": draw(st.sampled_from([.5, 1.0, 2.0])), "fwhmy": draw(st.sampled_from([.5, 1.0, 3.0])), "cx": draw(st.sampled_from([0, .5, -.7])), "cy": draw(st.sampled_from([0, .25]))}]
        if draw(st.integers(0, 2)) == 0:
            shape = ["spec-gauss", dict(shape[1], freq0=f0, freq_exp=draw(st.sampled_from([-1, 0.5])))]
        elif draw(st.integers(0, 2)) == 0:
            shape = ["custom", {"a": draw(st.sampled_from([0, .5])), "b": .25, "s": draw(st.sampled_from([.5, 1.0]))}]
        spec = ["gauss", {"A": draw(st.sampled_from([1, 2.5])), "freq0": f0, "fwhm": f0 * draw(st.sampled_from([.02, .1, .5]))}]
        dets.append({"spatial": shape, "spectral": spec, "nominal": draw(st.sampled_from([None, None, 1.0, 1.05]))})
    return {"dets": dets, "which": draw(st.lists(st.integers(0, 3), max_size=3)), "f": draw(st.one_of(st.none(), st.tuples(st.sampled_from([.5, .9]), st.sampled_from([1.2, 2.0])))), "fs": draw(st.sampled_from([None, .97, 1.01])),
            "lim": draw(st.one_of(st.none(), st.tuples(st.sampled_from([-2.0, -1.0]), st.sampled_from([1.0, 3.0]), st.sampled_from([-3.0, -.5]), st.sampled_from([.7, 2.0])))), "res": draw(st.sampled_from([.3, .5])), "one": draw(st.booleans()), "names": draw(st.booleans())}


def detectors(case, t):
    from vlib.instr import psf_args, psf_value, spec_args, spec_value
    dets = case["dets"]
    one = case["one"] and len(dets) == 1
    names = ["detector"] if one else [f"d{9 - i}" if case["names"] else str(i) for i in range(len(dets))]
    ref = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if one:
            d = dets[0]
            ins = Detector("arcsec", "GHz", "Jy", noise_function="none", nominal_frequency=d["nominal"] and d["nominal"] * d["spectral"][1]["freq0"], spatial_res=case["res"], **psf_args(d["spatial"]), **spec_args(d["spectral"]))
        else:
            ins = Instrument("arcsec", "GHz", "Jy", best_spatial_res=case["res"])
            for nm, d in zip(names, dets):
                ins.add_detector(nm if case["names"] else None, noise_function="none", nominal_frequency=d["nominal"] and d["nominal"] * d["spectral"][1]["freq0"], **psf_args(d["spatial"]), **spec_args(d["spectral"]))
    for nm, d in zip(names, dets):
        f0 = d["spectral"][1]["freq0"]
        r = ins.detectors[nm].reffreq
        if d["nominal"] is not None:
            t.check(r == d["nominal"] * f0, f"nominal frequency {d['nominal'] * f0} of {nm!r} is taken as {r}")
        else:
            t.check(abs(r - f0) < .003 * f0, f"detector {nm!r} responding at {f0} (width {d['spectral'][1]['fwhm']}) is said to be at {r}")
            t.label("peak found")
        ref.append(float(r))
    which = sorted({i % len(dets) for i in case["which"]})
    shown = which or list(range(len(dets)))
    kw = {}
    flo, fhi = .9 * min(ref[i] for i in shown), 1.1 * max(ref[i] for i in shown)
    if case["f"] is not None:
        flo, fhi = case["f"][0] * ref[0], case["f"][1] * ref[0]
        kw.update(fmin=flo, fmax=fhi)
    x0, x1, y0, y1 = [s * 5 * case["res"] for s in (-1, 1, -1, 1)]
    if case["lim"] is not None:
        x0, x1, y0, y1 = case["lim"]
        kw.update(xmin=x0, xmax=x1, ymin=y0, ymax=y1)
    fs = None
    if case["fs"] is not None:
        fs = kw["fspatial"] = case["fs"] * ref[0]
    what = f"plot of detectors {[names[i] for i in which] or 'all'}"
    with canvas(t, what) as (figs, _):
        ins.plot_detector_response(*[names[i] for i in which], **kw)
        t.check(len(figs()) == len(shown), f"{what}: {len(figs())} figures")
        byname = {}
        for fig in figs():
            title = fig._suptitle.get_text()
            byname[title.split(":")[-1].strip()] = fig
        t.check(sorted(byname) == sorted(names[i] for i in shown), f"{what}: titled {sorted(byname)}")
        for i in shown:
            d, fig = dets[i], byname[names[i]]
            w = f"{what}, {names[i]!r}"
            spec_ax = [a for a in fig.axes if not meshes(a)][0]
            map_ax = [a for a in fig.axes if meshes(a)][0]
            curves = [np.asarray(q.get_xydata(), float) for q in spec_ax.lines]
            c = max(curves, key=len)
            t.close([c[:, 0].min(), c[:, 0].max()], [flo, fhi], f"{w}: range of frequencies", rtol=1e-9)
            t.close(c[:, 1], [spec_value(d["spectral"], f) for f in c[:, 0]], f"{w}: spectral response", rtol=1e-9, atol=1e-12)
            at = fs if fs is not None else ref[i]
            marks = [q for q in curves if len(q) == 2]
            t.check(len(marks) == 1 and np.allclose(marks[0][:, 0], at), f"{w}: marked frequencies {[q[:, 0] for q in marks]}, expected {at}")
            X, Y, v = meshes(map_ax)[0]
            X, Y = [(q[1:, 1:] + q[:-1, :-1]) / 2 for q in (X, Y)]
            t.close([X.min(), X.max(), Y.min(), Y.max()], [x0, x1, y0, y1], f"{w}: extent of the map", rtol=0, atol=.02 * max(x1 - x0, y1 - y0))
            want = psf_value(d["spatial"], X, Y, at)
            t.close(v, want, f"{w}: spatial response", rtol=1e-6, atol=1e-9)
            t.check("GHz" in spec_ax.get_xlabel() and "arcsec" in map_ax.get_xlabel() and "arcsec" in map_ax.get_ylabel(), f"{w}: units {spec_ax.get_xlabel()!r}, {map_ax.get_xlabel()!r}")
    if not one or True:
        what = f"plot of the spectral responses of {len(dets)} detectors"
        kw = {}
        flo, fhi = .9 * min(ref), 1.1 * max(ref)
        if case["f"] is not None:
            kw = {"fmin": case["f"][0] * ref[0], "fmax": case["f"][1] * ref[0]}
            flo, fhi = kw["fmin"], kw["fmax"]
        with canvas(t, what) as (figs, _):
            ins.plot_spectral_response(**kw)
            curves = [np.asarray(q.get_xydata(), float) for a in figs()[0].axes for q in a.lines]
            t.check(len(curves) == len(dets), f"{what}: {len(curves)} curves")
            want = [np.array([spec_value(d["spectral"], f) for f in curves[0][:, 0]]) for d in dets]
            left = list(range(len(dets)))
            for c in curves:
                t.close([c[:, 0].min(), c[:, 0].max()], [flo, fhi], f"{what}: range of frequencies", rtol=1e-9)
                m = [i for i in left if np.allclose(c[:, 1], want[i], rtol=1e-9, atol=1e-12)]
                t.check(m, f"{what}: a curve peaking at {c[np.argmax(c[:, 1])]} is of no detector")
                left.remove(m[0])
    t.nontrivial(any(d["spatial"][1].get("cx") or d["spatial"][0] == "custom" for d in dets))


# ------------------------------------------------------------ model tables
@st.composite
def tablecases(draw):
    return {"prop": draw(st.sampled_from(["sfr", "stellar", None])), "seed": draw(SEED)}


def table(case, t):
    from simim.galprops.sfr_behroozi13 import behroozi13_base
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = behroozi13_base(warn=False)
        what = f"plot_grid({case['prop']!r})"
        pcolor = matplotlib.axes.Axes.pcolor
        matplotlib.axes.Axes.pcolor = matplotlib.axes.Axes.pcolormesh  # a million polygons take a minute
        try:
            with canvas(t, what) as (figs, _):
                b.plot_grid(**({} if case["prop"] is None else {"prop": case["prop"]}))
                a = [a for a in figs()[0].axes if meshes(a)][0]
                X, Y, v = meshes(a)[0]
                X, Y = [(q[1:, 1:] + q[:-1, :-1]) / 2 for q in (X, Y)]
                r = np.random.default_rng(case["seed"])
                i, j = r.integers(1, v.shape[0] - 1, 400), r.integers(1, v.shape[1] - 1, 400)
                z, m, v = X[i, j], Y[i, j], v[i, j]
                f = b.stellarmass if case["prop"] == "stellar" else b.sfr
                want = f(z, m, scatter=False)
                ok = np.isfinite(want) & (want > 0)
                t.check(ok.mean() > .3, f"{what}: not comparable")
                # colours are of the middle of the cells' logarithms; the relation is smooth
                near = [f(z * 1.0, m * q, scatter=False) for q in (.98, 1.02)] + [f(z + q, m, scatter=False) for q in (-.01, .01)]
                lo, hi = np.min(near + [want], axis=0), np.max(near + [want], axis=0)
                s = 1e-6 * np.abs(want)
                t.check(np.all((v >= lo - s)[ok] & (v <= hi + s)[ok]), f"{what}: colours {v[ok][:3]}, relation {want[ok][:3]}")
                t.check(a.get_yscale() == "log", f"{what}: scale of the mass")
        finally:
            matplotlib.axes.Axes.pcolor = pcolor
    t.label(str(case["prop"]))
    t.nontrivial(True)


CHECKS = [Check("handler", handlers(), handler, quick=300, thorough=8000), Check("grid", gridcases(), gridplots, quick=600, thorough=20000), Check("cone", conecases(), cone, quick=160, thorough=4000),
          Check("detector", detcases(), detectors, quick=160, thorough=4000), Check("table", tablecases(), table, quick=40, thorough=40)]
