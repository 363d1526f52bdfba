"""Generators and the reference model for the instrument properties: what a
detector's response is at a point, and what its map of a cube must be."""
import numpy as np
from vlib.hyp import st
from vlib.grids import SEED, bulk, build
from props.p08 import direct
from simim.map import Grid

LN2x4 = 4 * np.log(2)


def custom_psf(dx, dy, freq, a=0.0, b=0.0, s=1.0):
    """A lopsided response, so that a flipped or swapped axis shows."""
    x, y, f = np.asarray(dx).reshape(-1, 1, 1), np.asarray(dy).reshape(1, -1, 1), np.asarray(freq).reshape(1, 1, -1)
    return (1 + 0.01 * f) / (1 + ((x - a) / s) ** 2 + 2 * ((y - b) / s) ** 2 + 0.3 * np.tanh(x / s - 0.5 * y / s) + 0.3)


def custom_spec(freq, c=0.1):
    return 1 + c * np.abs(np.asarray(freq))


def psf_value(sp, x, y, f):
    """The response of spec `sp` at one offset and frequency, from its formula."""
    kind, p = sp[0], sp[1]
    if kind == "custom":
        a, b, s = p.get("a", 0.0), p.get("b", 0.0), p.get("s", 1.0)
        return (1 + 0.01 * f) / (1 + ((x - a) / s) ** 2 + 2 * ((y - b) / s) ** 2 + 0.3 * np.tanh(x / s - 0.5 * y / s) + 0.3)
    wx, wy = p["fwhmx"], p["fwhmy"]
    if kind == "spec-gauss":
        k = (p["freq0"] / f) ** p.get("freq_exp", -1)
        wx, wy = wx * k, wy * k
    return np.exp(-LN2x4 * (((x - p.get("cx", 0)) / wx) ** 2 + ((y - p.get("cy", 0)) / wy) ** 2))


def spec_value(sp, f):
    kind, p = sp[0], sp[1]
    if kind == "gauss":
        return p["A"] * np.exp(-LN2x4 * (f - p["freq0"]) ** 2 / p["fwhm"] ** 2)
    if kind == "boxcar":
        return p["A"] if p["freq0"] - p["width"] / 2 <= f <= p["freq0"] + p["width"] / 2 else 0.0
    return 1 + p.get("c", 0.1) * abs(f)


def psf_args(sp):
    return {"spatial_response": custom_psf if sp[0] == "custom" else sp[0], "spatial_kwargs": dict(sp[1])}


def spec_args(sp):
    return {"spectral_response": custom_spec if sp[0] == "custom" else sp[0], "spectral_kwargs": dict(sp[1])}


@st.composite
def cubes(draw, max_props=3):
    n = [draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 5))]
    px = draw(st.sampled_from([0.5, 1.0, 0.3]))
    py = px if draw(st.booleans()) else draw(st.sampled_from([0.5, 1.0, 0.7]))
    pz = draw(st.sampled_from([0.5, 2.0, 0.7]))
    return {"n": n, "pix": [px, py, pz], "cen": [float(draw(st.integers(-4, 4))), float(draw(st.integers(-4, 4))), float(draw(st.sampled_from([40, 100, 57.3])))],
            "np": draw(st.integers(1, max_props)), "dy": False, "intgeom": False}


@st.composite
def spatials(draw, cube):
    pm = max(cube["pix"][:2])
    k = draw(st.sampled_from(["gauss", "gauss", "spec-gauss", "custom"]))
    if k == "custom":
        return ["custom", {"a": draw(st.sampled_from([0.0, 0.4])) * pm, "b": draw(st.sampled_from([0.0, -0.7])) * pm, "s": pm * draw(st.sampled_from([0.7, 2.0]))}]
    narrow = draw(st.integers(0, 3)) == 0
    w = [pm * (0.01 if narrow else draw(st.sampled_from([0.8, 1.3, 2.5]))) for _ in range(2)]
    p = {"fwhmx": w[0], "fwhmy": w[1]}
    if not narrow and draw(st.booleans()):
        p.update(cx=pm * draw(st.sampled_from([0.5, -1.0])), cy=pm * draw(st.sampled_from([0.0, 1.0])))
    if k == "spec-gauss":
        p["freq0"] = cube["cen"][2] * draw(st.sampled_from([1.0, 0.8, 1.2]))
        if draw(st.booleans()):
            p["freq_exp"] = draw(st.sampled_from([1, -1, -2.0, 0.5]))
    return [k, p]


@st.composite
def spatial_list(draw, cube, n):
    """Several responses, some of them almost the same: one argument more, fewer or
    different, the same arguments in another order."""
    out = [draw(spatials(cube))]
    pm = max(cube["pix"][:2])
    while len(out) < n:
        how = draw(st.sampled_from(["new", "new", "more", "fewer", "other", "kind"]))
        k, p = out[draw(st.integers(0, len(out) - 1))]
        p = dict(p)
        if how == "new":
            out.append(draw(spatials(cube)))
            continue
        if how == "more":
            new = {"custom": [("a", 0.9 * pm)], "gauss": [("cx", 0.7 * pm), ("cy", -0.7 * pm)], "spec-gauss": [("cx", 0.7 * pm), ("freq_exp", -2.5)]}[k]
            key, v = new[draw(st.integers(0, len(new) - 1))]
            p[key] = v
        elif how == "fewer":
            drop = [q for q in ("a", "b", "cx", "cy", "freq_exp") if q in p]
            if drop:
                p.pop(drop[draw(st.integers(0, len(drop) - 1))])
        elif how == "other":
            key = "s" if k == "custom" else "fwhmy"
            p[key] = p[key] * 1.4
        elif k == "gauss":
            k, p = "spec-gauss", dict(p, freq0=0.9 * cube["cen"][2])
        elif k == "spec-gauss":
            k = "gauss"
            p = {q: v for q, v in p.items() if not q.startswith("freq")}
        if draw(st.booleans()):
            p = dict(reversed(list(p.items())))
        out.append([k, p])
    return out


@st.composite
def field_cube(draw, cube, same_pix=False, same_nf=False):
    """The geometry of one more field: that of the first, or another."""
    c = {k: (list(v) if isinstance(v, list) else v) for k, v in cube.items()}
    if draw(st.booleans()):
        return c
    what = draw(st.sets(st.sampled_from(["freq", "sky", "n", "pix", "nf"]), min_size=1, max_size=3))
    if "freq" in what:
        c["cen"][2] += draw(st.sampled_from([30.0, -7.5, 1.0]))
    if "sky" in what:
        c["cen"][0] += 2.0
    if "n" in what:
        c["n"][draw(st.integers(0, 1))] += 2
    if "nf" in what and not same_nf:
        c["n"][2] += 2
    if "pix" in what and not same_pix:
        c["pix"][draw(st.integers(0, 2))] *= 1.5
    return c


@st.composite
def spectrals(draw, cube):
    k = draw(st.sampled_from(["gauss", "boxcar", "custom"]))
    if k == "custom":
        return ["custom", {"c": draw(st.sampled_from([0.0, 0.1, 3.0]))}]
    n, pz, c = cube["n"][2], cube["pix"][2], cube["cen"][2]
    f0 = (draw(st.integers(0, n - 1)) + 0.5 - n / 2) * pz + c
    A = draw(st.sampled_from([1.0, 0.3, 7.0]))
    if k == "gauss":
        return [k, {"A": A, "freq0": f0 + pz * draw(st.sampled_from([0, 0.3])), "fwhm": pz * draw(st.sampled_from([1.0, 2.7, 10.0]))}]
    return [k, {"A": A, "freq0": f0 + pz * draw(st.sampled_from([0, 0.2])), "width": pz * draw(st.sampled_from([1.1, 2.3, 4.7]))}]


def centers(cube, i):
    n, p, c = cube["n"][i], cube["pix"][i], cube["cen"][i]
    return (np.arange(n) + 0.5 - n / 2) * p + c


def ref_beam(cube, sp, ker, norm):
    xs = [(np.arange(ker[i]) - (ker[i] - 1) / 2) * cube["pix"][i] for i in range(2)]
    fs = centers(cube, 2)
    b = np.array([[[psf_value(sp, x, y, f) for f in fs] for y in xs[1]] for x in xs[0]])
    if norm == "peak":
        b = b / b.max(axis=(0, 1))
    elif norm == "area":
        b = b / b.sum(axis=(0, 1))
    return b


def ref_map(cube, values, beam, spec):
    """values: the field's own property, (nx, ny, nf); beam: (kx, ky, nf)."""
    con = direct(values[..., None], beam[..., None], [0, 1])[..., 0]
    w = np.array([spec_value(spec, f) for f in centers(cube, 2)])
    return (con * w).sum(axis=2) / w.sum()


def make_field(cube, values, **kw):
    g = build(cube, **kw)
    g.grid = values.copy()
    return g
