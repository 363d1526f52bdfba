"""P06: auto and cross power spectra against the explicit discrete transform."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, check_lattice, disturb, grid_specs
from props.p05 import dft


@st.composite
def cases(draw):
    spec = draw(grid_specs(max_dim=3, max_cells=150, max_n=8, max_props=3, big=True))
    nd = len(spec["n"])
    cross = draw(st.sampled_from(["no", "no", "same", "one", "many", "self"]))
    np2 = spec["np"]
    if cross == "one":
        np2 = 1
    if cross == "many":
        spec = dict(spec, np=1)
        np2 = draw(st.integers(1, 3))
    p = draw(st.permutations(list(range(nd))))
    return {"spec": spec, "np2": np2, "cross": cross, "ax": draw(st.one_of(st.none(), st.just(p[: draw(st.integers(1, nd))]))),
            "pre": [draw(st.integers(0, 3)) == 0 for _ in range(nd)], "pre2": [draw(st.integers(0, 3)) == 0 for _ in range(nd)],
            "norm": draw(st.booleans()), "inplace": draw(st.booleans()), "seed": draw(SEED), "seed2": draw(SEED),
            "kind": draw(st.sampled_from(["float", "float", "int", "complex"])), "shift": [draw(st.integers(0, 5)) for _ in range(nd)],
            "units": draw(st.booleans()), "bare": draw(st.booleans())}


def run(case, t):
    spec, norm = case["spec"], case["norm"]
    nd = len(spec["n"])
    kw = {"axunits": "Mpc", "gridunits": "Jy"} if case["units"] else {}
    a = bulk(case["seed"], tuple(spec["n"]) + (spec["np"],), case["kind"])
    b = bulk(case["seed2"], tuple(spec["n"]) + (case["np2"],), "float")
    ax = list(range(nd)) if case["ax"] is None else case["ax"]

    def make(data, npr, pre):
        g = build(spec, n_properties=npr, **kw)
        g.grid = data.copy()
        g.n_objects = 5
        pl = [i for i in range(nd) if pre[i]]
        if pl:
            g.fourier_transform(pl, normalize=norm)
        return g

    def ft(data):
        cur = data.astype(complex)
        for i in ax:
            cur = dft(cur, i, spec["n"][i], spec["pix"][i], norm, False)
        return cur

    g = make(a, spec["np"], case["pre"])
    start = g.grid.copy()
    kws = {} if norm else {"normalize": False}
    if case["ax"] is not None:
        kws["ax"] = ax[0] if len(ax) == 1 and case["bare"] else list(ax)
    fa = ft(a)
    h = None
    if case["cross"] == "self":
        ref = (np.abs(fa) ** 2)
        kws["cross_grid"] = g
    elif case["cross"] != "no":
        h = make(b, case["np2"], case["pre2"])
        hstart = h.grid.copy()
        kws["cross_grid"] = h
        ref = (fa * ft(b).conj()).real
    else:
        ref = np.abs(fa) ** 2
    if case["inplace"]:
        kws["in_place"] = True
    p = g.power_spectrum(**kws)
    s = np.abs(ref).max(initial=0) + np.abs(fa).max(initial=0) ** 2 + 1e-300
    t.check(not np.iscomplexobj(p.grid), "a power spectrum is real")
    t.close(p.grid, ref, "power spectrum", rtol=1e-7, atol=1e-9 * s)
    t.check(bool(p.is_power_spectrum), "the result is marked as a power spectrum")
    t.equal([bool(x) for x in p.fourier_space], [i in ax for i in range(nd)], "which axes of the result are in Fourier space")
    if not case["inplace"] or case["cross"] in ("no", "self"):
        t.equal(int(p.n_properties), ref.shape[-1], "number of properties of the result")
    check_lattice(t, p, spec["n"], spec["pix"], spec["cen"]) if p.n_properties == ref.shape[-1] else None
    if h is None:
        t.check(np.all(p.grid >= 0), "auto power is not negative")
    if case["inplace"]:
        t.check(p is g, "the in-place power spectrum is the grid itself")
    else:
        t.check(p is not g, "a new grid is returned")
        m = np.abs(start).max(initial=0) + 1e-300
        t.close(g.grid, start, "the input grid", rtol=1e-8, atol=1e-9 * m)
        t.equal([bool(x) for x in g.fourier_space], [bool(x) for x in case["pre"]], "which axes of the input are in Fourier space")
        t.check(not g.is_power_spectrum, "the input is still a map")
        q = p.copy()
        disturb(p)
        t.close(g.grid, start, "the input grid after changing the result", rtol=1e-8, atol=1e-9 * m)
        check_lattice(t, g, spec["n"], spec["pix"], spec["cen"], "input grid")
        t.equal([bool(x) for x in g.fourier_space], [bool(x) for x in case["pre"]], "which axes of the input are in Fourier space after changing the result")
        p = q
    if h is not None:
        m = np.abs(hstart).max(initial=0) + 1e-300
        t.close(h.grid, hstart, "the cross grid", rtol=1e-8, atol=1e-9 * m)
        t.equal([bool(x) for x in h.fourier_space], [bool(x) for x in case["pre2"]], "which axes of the cross grid are in Fourier space")
        t.check(not h.is_power_spectrum, "the cross grid is still a map")
    t.raises(lambda: p.power_spectrum(), "power spectrum of a power spectrum")
    # periodic translation does not change auto power; exchange does not change cross power
    if h is None:
        shifted = np.roll(a, case["shift"], axis=tuple(range(nd)))
        p2 = make(shifted, spec["np"], [False] * nd).power_spectrum(**{k: v for k, v in kws.items() if k not in ("cross_grid", "in_place")})
        if ax == list(range(nd)) or all(i in ax for i in range(nd)):
            t.close(p2.grid, ref, "power spectrum of the translated field", rtol=1e-7, atol=1e-9 * s)
    else:
        k2 = {k: v for k, v in kws.items() if k not in ("cross_grid", "in_place")}
        p2 = make(b, case["np2"], [False] * nd).power_spectrum(cross_grid=make(a, spec["np"], [False] * nd), **k2)
        t.close(p2.grid, ref, "cross power with the grids exchanged", rtol=1e-7, atol=1e-9 * s)
    if h is None and norm and len(ax) == nd:
        vol = np.prod(np.array(spec["n"]) * np.array(spec["pix"]))
        t.close(ref.sum() / vol, (np.abs(a) ** 2).sum() * np.prod(spec["pix"]), "sum of power", rtol=1e-7)
    t.label(case["cross"], "in place" if case["inplace"] else "new grid", "axis subset" if len(ax) < nd else "all axes")
    t.nontrivial(max(spec["n"]) > 2)


CHECKS = [Check("power", cases(), run, quick=24000, thorough=80000)]
