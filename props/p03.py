"""P03: a model lattice (cell count, size, centre, data) followed through histories of geometry operations."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, check_lattice, coords, grid_specs, maybe_int
from simim.map import Grid


@st.composite
def ax_subset(draw, nd, allow_empty=False):
    k = draw(st.integers(1, nd))
    p = draw(st.permutations(list(range(nd))))
    return p[:k]


@st.composite
def cases(draw):
    spec = draw(grid_specs(max_dim=3, max_cells=80, max_n=6, max_props=2, big=True))
    nd = len(spec["n"])
    n = list(spec["n"])
    four = [False] * nd
    nprop = spec["np"]
    ops = []
    cells_cap = 1500
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(["pad", "pad", "crop", "scale", "scale", "copy", "newprop", "add", "ft", "reject", "copyaxes"]))
        if kind == "pad":
            ax = draw(ax_subset(nd))
            scalar = draw(st.booleans())
            lo = [-(n[a] - 1) // 2 for a in ax]
            if scalar:
                v = draw(st.integers(max(lo), 2))
                w = [v] * len(ax)
            else:
                w = [draw(st.integers(max(l, -3), 3)) for l in lo]
            nn = list(n)
            for a, k in zip(ax, w):
                nn[a] += 2 * k
            if np.prod(nn) > cells_cap or min(nn) < 1:
                continue
            n = nn
            ops.append({"op": "pad", "ax": ax, "w": w, "scalar": scalar, "val": draw(st.sampled_from([0, 0, 1.5, -2.0])), "bare": draw(st.booleans())})
        elif kind == "crop":
            a = draw(st.integers(0, nd - 1))
            if four[a]:
                ops.append({"op": "crop", "ax": a, "reject": True, "lo": 0, "hi": 0, "flo": None, "fhi": None})
                continue
            lo = draw(st.integers(0, n[a] - 1))
            hi = draw(st.integers(lo, n[a] - 1))
            op = {"op": "crop", "ax": a, "lo": lo, "hi": hi,
                  "flo": draw(st.sampled_from([0.1, 0.4, 0.499])), "fhi": draw(st.sampled_from([0.1, 0.4, 0.499]))}
            if lo == 0 and draw(st.booleans()):
                op["flo"] = None
            if hi == n[a] - 1 and draw(st.booleans()):
                op["fhi"] = None
            n[a] = hi - lo + 1
            ops.append(op)
        elif kind == "scale":
            ax = draw(ax_subset(nd))
            scalar = draw(st.booleans())
            f = [draw(st.sampled_from([2, 0.5, 3.0, 1.0, 0.7, 10, 1e3]))] * len(ax) if scalar else \
                [draw(st.sampled_from([2.0, 0.5, 3.0, 1.0, 0.7, 10.0])) for _ in ax]
            ops.append({"op": "scale", "ax": ax, "f": f, "scalar": scalar, "center": draw(st.sampled_from([True, False, None])),
                        "units": draw(st.sampled_from(["same", "same", None, "Mpc/h", "a longer unit"])), "bare": draw(st.booleans())})
        elif kind == "copy":
            sel = draw(st.one_of(st.none(), st.lists(st.integers(0, nprop - 1), min_size=1, max_size=nprop, unique=True)))
            if sel is not None:
                nprop = len(sel)
            ops.append({"op": "copy", "props": sel, "keep_original": draw(st.booleans())})
            if ops[-1]["keep_original"] and sel is not None:
                # history continues on the original, so its properties count
                pass
        elif kind == "newprop":
            ops.append({"op": "newprop", "k": draw(st.integers(0, 2)), "seed": draw(SEED)})
            nprop += max(1, ops[-1]["k"])
        elif kind == "add":
            if any(four):
                continue
            pts = [[[draw(st.integers(-1, n[a])), draw(st.sampled_from([0.5, 0.25, 0.9]))] for a in range(nd)] for _ in range(draw(st.integers(1, 4)))]
            ops.append({"op": "add", "pts": pts, "seed": draw(SEED)})
        elif kind == "ft":
            a = draw(ax_subset(nd))
            for i in a:
                four[i] = not four[i]
            ops.append({"op": "ft", "ax": a, "norm": draw(st.booleans())})
        elif kind == "reject":
            ops.append({"op": "reject", "what": draw(st.sampled_from(["pad", "pad2", "crop", "cropaxis", "scale", "scalelen", "padlen"]))})
        else:
            ops.append({"op": "copyaxes", "n": draw(st.integers(1, 3))})
    return {"spec": spec, "ops": ops, "units": draw(st.sampled_from([None, "Mpc", "per"])), "seed": draw(SEED),
            "active": draw(st.sampled_from([True, True, True, False])), "gunits": draw(st.booleans())}


class Model:
    def __init__(self, n, pix, cen, four, units, data, count):
        self.n, self.pix, self.cen, self.four, self.units, self.data, self.count = list(n), list(pix), list(cen), list(four), list(units), data, count
        self.rounding = 0.0  # size of the values whose rounding errors the data carry (those values may be gone by now)

    def clone(self):
        m = Model(self.n, self.pix, self.cen, self.four, self.units, None if self.data is None else self.data.copy(), self.count)
        m.rounding = self.rounding
        return m


def compare(t, g, m, what):
    check_lattice(t, g, m.n, m.pix, m.cen, what)
    t.equal([bool(b) for b in g.fourier_space], m.four, f"{what}: which axes are in Fourier space")
    t.equal(list(g.axunits), m.units, f"{what}: axis units")
    t.equal(list(g.fourier_axunits), [None if u is None else u + "^-1" for u in m.units], f"{what}: Fourier axis units")
    if m.data is not None:
        t.equal(int(g.n_properties), m.data.shape[-1], f"{what}: number of properties")
        s = max(np.abs(m.data).max(initial=0), m.rounding) + 1e-300
        t.close(g.grid, m.data, f"{what}: data", rtol=1e-8, atol=1e-10 * s)
        t.equal(int(g.n_objects), m.count, f"{what}: object count")


def run(case, t):
    spec = case["spec"]
    nd = len(spec["n"])
    kw = {}
    units = [None] * nd
    if case["units"] == "Mpc":
        kw["axunits"], units = "Mpc", ["Mpc"] * nd
    elif case["units"] == "per":
        units = ["u%d" % i for i in range(nd)]
        kw["axunits"] = tuple(units)
    if case["gunits"]:
        kw["gridunits"] = "Jy"
    g = build(spec, init=case["active"], **kw)
    data = None
    if case["active"]:
        data = bulk(case["seed"], g.grid.shape, "float")
        g.grid[...] = data
    m = Model(spec["n"], spec["pix"], spec["cen"], [False] * nd, units, data, 0)
    compare(t, g, m, "new grid")
    others = []
    kinds = set()
    for k, op in enumerate(case["ops"]):
        o = op["op"]
        what = f"after step {k} ({o})"
        if o == "pad":
            ax, w = op["ax"], op["w"]
            a = ax[0] if (len(ax) == 1 and op["bare"]) else tuple(ax)
            p = w[0] if op["scalar"] else tuple(w)
            if op["val"]:
                g.pad(a, p, val=op["val"])
            else:
                g.pad(a, p)
            for i, x in zip(ax, w):
                old = m.n[i]
                m.n[i] = old + 2 * x
                if m.data is not None:
                    d = np.moveaxis(m.data, i, 0)
                    if x >= 0:
                        e = np.full((x,) + d.shape[1:], op["val"], dtype=float)
                        d = np.concatenate((e, d, e), 0)
                    else:
                        d = d[-x: old + x]
                    m.data = np.moveaxis(d, 0, i)
                if m.four[i] and x != 0:
                    m.pix[i] = m.pix[i] * old / m.n[i]
                    t.label("pad in Fourier space")
            if sorted(ax) != list(range(nd)) or ax != sorted(ax):
                t.label("pad of an axis subset or order")
            if any(x < 0 for x in w):
                t.label("negative pad")
        elif o == "crop":
            i = op["ax"]
            if op.get("reject"):
                if not m.four[i]:
                    continue
                t.raises(lambda: g.crop(i, m.cen[i] - m.pix[i], m.cen[i] + m.pix[i]), "cropping a Fourier axis")
                compare(t, g, m, what + " rejected")
                continue
            c = (np.arange(m.n[i]) + 0.5 - m.n[i] / 2) * m.pix[i] + m.cen[i]
            lo = None if op["flo"] is None else float(c[op["lo"]] - op["flo"] * m.pix[i])
            hi = None if op["fhi"] is None else float(c[op["hi"]] + op["fhi"] * m.pix[i])
            g.crop(i, lo, hi)
            if m.data is not None:
                m.data = np.take(m.data, np.arange(op["lo"], op["hi"] + 1), axis=i)
            m.cen[i] = float((c[op["lo"]] + c[op["hi"]]) / 2)
            m.n[i] = op["hi"] - op["lo"] + 1
        elif o == "scale":
            ax = op["ax"]
            a = ax[0] if (len(ax) == 1 and op["bare"]) else list(ax)
            kws = {}
            if op["center"] is not None:
                kws["scalecenter"] = op["center"]
            if op["units"] != "same":
                kws["axunits"] = op["units"]
            g.scale_axis(a, op["f"][0] if op["scalar"] else list(op["f"]), **kws)
            for i, f in zip(ax, op["f"]):
                m.pix[i] *= f
                if op["center"] is not False:
                    m.cen[i] *= f
                if op["units"] != "same":
                    m.units[i] = op["units"]
            if op["center"] is False:
                t.label("scale about the centre")
            if sorted(ax) != list(range(nd)):
                t.label("scale of an axis subset")
        elif o == "copy":
            nprop = len(m.data[..., :].reshape(-1, m.data.shape[-1])[0]) if m.data is not None else int(g.n_properties)
            sel = op["props"]
            if sel is not None and any(s >= nprop for s in sel):
                continue
            h = g.copy() if sel is None else g.copy(sel)
            mh = m.clone()
            if m.data is not None and sel is not None:
                mh.data = m.data[..., sel].copy()
            compare(t, h, mh, what)
            t.equal(int(h.n_properties), nprop if sel is None else len(sel), what + ": number of properties of the copy")
            if op["keep_original"]:
                others.append((h, mh, f"copy made in step {k}"))
                if h.grid_active:
                    before = m.data.copy()
                    h.grid += 17.0
                    mh.data = mh.data + 17.0
                    s = max(np.abs(before).max(initial=0), m.rounding) + 1e-300
                    t.close(g.grid, before, "original after its copy was changed", rtol=1e-8, atol=1e-10 * s)
            else:
                others.append((g, m, f"original copied in step {k}"))
                g, m = h, mh
        elif o == "copyaxes":
            h = g.copy_axes(op["n"])
            t.equal(int(h.n_properties), op["n"], "number of properties of copied axes")
            h.init_grid()
            check_lattice(t, h, m.n, m.pix, m.cen, "copied axes")
            t.check(not np.any(h.grid), "a grid made from copied axes starts empty")
        elif o == "newprop":
            if m.data is None:
                continue
            kk = op["k"]
            if kk == 0:
                g.add_new_prop()
                add = np.zeros(tuple(m.n) + (1,))
            else:
                add = bulk(op["seed"], tuple(m.n) + (kk,), "float")
                g.add_new_prop(add[..., 0].copy() if kk == 1 else add.copy())
            m.data = np.concatenate((m.data, add), -1)
        elif o == "add":
            if m.data is None or any(m.four) or np.iscomplexobj(g.grid):
                continue
            s = {"n": m.n, "pix": m.pix, "cen": m.cen, "dy": False}
            pos = coords(s, op["pts"])
            v = bulk(op["seed"], (len(pos),), "int")
            g.add_from_cat(pos, v)
            for p, x in zip(op["pts"], v):
                idx = tuple(q[0] for q in p)
                if all(0 <= i < j for i, j in zip(idx, m.n)):
                    m.data[idx] += x
                    m.count += 1
        elif o == "ft":
            if m.data is None:
                continue
            g.fourier_transform(list(op["ax"]), normalize=op["norm"])
            for i in op["ax"]:
                f = np.sqrt(m.n[i]) * (m.pix[i] if op["norm"] else 1)
                m.rounding = max(m.rounding, np.abs(m.data).max(initial=0)) * (1 / f if m.four[i] else f)
                if m.four[i]:
                    m.data = np.fft.ifft(np.fft.ifftshift(m.data, axes=i), axis=i) / (m.pix[i] if op["norm"] else 1)
                else:
                    m.data = np.fft.fftshift(np.fft.fft(m.data, axis=i), axes=i) * (m.pix[i] if op["norm"] else 1)
                m.four[i] = not m.four[i]
        elif o == "reject":
            w = op["what"]
            bad = {"pad": lambda: g.pad(nd, 1), "pad2": lambda: g.pad(0, -((m.n[0] + 1) // 2)), "padlen": lambda: g.pad((0,), (1, 1)),
                   "crop": lambda: g.crop(0, m.cen[0] + 2 * m.n[0] * m.pix[0], m.cen[0] + 3 * m.n[0] * m.pix[0]),
                   "cropaxis": lambda: g.crop(nd, 0, 1), "scale": lambda: g.scale_axis(nd, 2.0), "scalelen": lambda: g.scale_axis((0,), (2.0, 3.0))}[w]
            t.raises(bad, f"invalid {w}")
            t.label("rejected call")
        kinds.add(o)
        compare(t, g, m, what)
    for h, mh, name in others:
        compare(t, h, mh, name + ", at the end")
    t.label(*kinds)
    t.nontrivial(len(kinds & {"pad", "crop", "scale", "ft"}) >= 1 and len(case["ops"]) >= 2)


CHECKS = [Check("history", cases(), run, quick=24000, thorough=80000)]
