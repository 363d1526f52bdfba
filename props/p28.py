"""P28: built-in models, scatter off, against the published relations."""
import os
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib import hand
from vlib.grids import SEED, sizes

NU = {1: 115.2712018e9, 2: 230.538e9, 3: 345.7959899e9, 4: 461.0407682e9, 5: 576.2679305e9, 6: 691.4730763e9, 7: 806.651806e9, 8: 921.7997e9, 9: 1036.912393e9, 10: 1151.985452e9, 11: 1267.014486e9, 12: 1381.995105e9, 13: 1496.922909e9}
LSUN41 = 3.828e33 * 1e-41  # one solar luminosity in 1e41 erg/s
KAM = {  # all, ULIRGs, the rest: slope and intercept of log L_FIR against log L'_CO
    "all": ([1.27, 1.11, 1.18, 1.09, 1.05, 1.04, 0.98, 1.00, 1.03, 1.01, 1.06, 0.99, 1.12], [-1.0, 0.6, 0.1, 1.2, 1.8, 2.2, 2.9, 3.0, 2.9, 3.2, 3.1, 3.7, 2.9]),
    "ulirg": ([1.15, 0.66, 0.94, 0.68, 0.96, 1.02, 0.92, 0.91, 0.92, 0.83, 0.86, 0.79, 0.85], [0.2, 4.9, 2.3, 4.9, 2.7, 2.4, 3.5, 3.7, 3.8, 4.7, 4.7, 5.3, 5.0]),
    "rest": ([1.05, 1.12, 1.05, 1.09, 1.01, 1.01, 1.00, 1.07, 1.06, 1.12, 1.10, 1.03, 1.23], [0.8, 0.4, 0.9, 1.2, 2.1, 2.3, 2.8, 2.5, 2.7, 2.5, 2.7, 3.4, 2.2])}
DELOOZE = {"[CII]": {None: (1.01, -6.99), "DGS": (.84, -5.29), "dwarfs": (.80, -5.73), "starbursts": (1.0, -7.06), "comp/agn": (.90, -6.09), "comp/AGN": (.90, -6.09), "high z": (1.18, -8.52)},
           "[OI]": {None: (1.0, -6.79), "DGS": (.94, -6.37), "dwarfs": (.91, -6.23), "starbursts": (.89, -6.05), "comp/agn": (.76, -5.08), "comp/AGN": (.76, -5.08)},
           "[OIII]": {None: (1.12, -7.48), "DGS": (.92, -6.71), "dwarfs": (.92, -6.71), "starbursts": (.69, -3.89), "comp/agn": (.87, -5.46), "comp/AGN": (.87, -5.46)}}
FIRA = {"[CII]": .89, "[NII]": 1.01, "[OI]": .98, "[OIII]88um": .98, "[OIII]52um": .88, "[SiII]": 1.04, "[SiIII]33um": .99, "[SiIII]19um": .97, "[NeII]": .99, "[NeIII]": 1.10}
UZGIL = dict(zip(FIRA, [2.44, 3.54, 2.70, 2.86, 2.54, 3.15, 3.21, 3.47, 3.26, 3.72]))
SPIN = dict(zip(FIRA, [2.67, 3.80, 2.95, 3.11, 2.76, 3.42, 3.46, 3.72, 2.94, 4.00]))
SCHAERER = {None: (1.17, 6.61), "ALPINE-uvirx": (1.17, 6.61), "ALPINE-uvir": (1.0, 7.0), "ALPINE-sed": (.84, 7.09), "high z-uvirx": (1.28, 6.43)}


def poly(*c):
    return lambda z: sum(v * z**i for i, v in enumerate(c))


def expo(a, b, c):
    return lambda z: a * np.exp(-z / b) + c


# Yang et al. 2022: log10 m1, log10 N, alpha, beta below redshift 4, from 4 to 5, above 5
YANG = {"CII": [(lambda z: 12.11 * np.where(z > 0, np.where(z > 0, z, 1.0)**-0.04105, 1.0), poly(8.69, 1.26, -.143), poly(11.92, -.1068)),
                (expo(-.907, .867, -3.04), poly(-5.467, 1.056, -.1133), poly(-2.37, -.130)),
                (poly(1.35, .450, -.0805), poly(6.135, -1.786, .1837), poly(2.82, -.298, .0196)),
                (expo(2.57, 1.55, .0575), poly(.443, -.0521), expo(1760, .520, .0782))],
        "CI1-0": [(expo(1.026, 2.346, 11.20), poly(8.54, 1.33, -.157), expo(4.294, 2.479, 10.68)), (expo(-1.451, 1.893, -5.046), poly(-6.96, .750, -.0807), expo(1.89, 5.73, -6.03)),
                  (expo(-.741, .739, 1.86), poly(8.42, -2.91, .320), poly(1.04, .165)), (poly(1.26, -.198), poly(.837, -.103), expo(2090, .520, .204))],
        "CI2-1": [(expo(1.135, 2.616, 11.13), poly(8.823, 1.206, -.1445), expo(4.37, 2.38, 10.7)), (expo(-2.03, 1.80, -4.44), poly(-4.906, .05632), expo(1.48, 6.14, -5.31)),
                  (expo(-1.16, .706, 2.00), poly(9.275, -3.225, .3543), poly(1.17, .169)), (poly(1.54, -.259), poly(.94, -.12), expo(3960, .487, .221))]}
_co = zip(["CO1-0", "CO2-1", "CO3-2", "CO4-3", "CO5-4"],
          [(12.13, -.1678), (12.12, -.1704), (12.1, -.171), (12.09, -.1662), (12.12, -.1796)], [(11.75, -.06833), (11.74, -.0705), (11.74, -.07228), (11.73, -.07457), (11.73, -.07789)], [(11.63, -.04943), (11.63, -.05266), (11.62, -.0550), (11.6, -.0529), (11.58, -.05359)],
          [(-6.855, .2366, -.05013), (-5.95, .278, -.0521), (-5.53, .329, -.0570), (-5.35, .404, -.0657), (-5.37, .515, -.0802)], [(-6.554, -.03725, 0), (-5.57, -.0250, 0), (-5.06, -.0150, 0), (-4.784, 0, 0), (-3.81, -.359, .0419)], [(-6.274, -.09087), (-5.26, -.0849), (-4.72, -.0808), (-4.40, -.0744), (-4.21, -.0674)],
          [(1.642, .1663, -.03238), (1.69, .126, -.0280), (1.843, .08405, -.02485), (2.24, -.0891, 0), (2.14, .110, -.0371)], [(3.73, -.833, .0884), (4.557, -1.215, .13), (5.253, -1.502, .1609), (5.74, -1.67, .178), (6.12, -1.77, .188)], [(2.56, -.223, .0142), (2.47, -.210, .0132), (2.53, -.220, .0139), (2.59, -.206, .0120), (2.87, -.257, .0157)],
          [(1.77, 2.72, -.0827), (1.80, 2.76, -.0678), (1.88, 2.74, -.0623), (2.017, 2.870, -.1127), (2.39, 2.55, -.0890)], [(.598, -.0710), (.657, -.0794), (.707, -.0879), (.762, -.0984), (.846, -.115)], [(33.4, .846, .160), (38.3, .841, .169), (31.5, .879, .170), (41.6, .843, .172), (21.8, .957, .168)])
for _n, *_v in _co:
    YANG[_n] = [(poly(*_v[0]), poly(*_v[1]), poly(*_v[2])), (poly(*_v[3]), poly(*_v[4]), poly(*_v[5])), (poly(*_v[6]), poly(*_v[7]), poly(*_v[8])), (expo(*_v[9]), poly(*_v[10]), expo(*_v[11]))]


def yang(mass, z, line):
    m1, n, a, b = [np.where(z < 4, p[0](z), np.where(z < 5, p[1](z), p[2](z))) for p in YANG[line]]
    x = mass / 10**m1
    return 2 * 10**n * mass / (x**-a + x**b)


def pick(draw, **options):
    """Give some of the options, leave others at their default."""
    return {k: draw(v) for k, v in options.items() if draw(st.booleans())}


LOGU = lambda lo, hi: st.integers(int(lo * 100), int(hi * 100)).map(lambda k: 10 ** (k / 100))
RATE, DUTY = LOGU(-.4, .4), st.integers(0, 20).map(lambda k: k / 20)

# name: (module, function, inputs, strategy of options, switches that turn scatter off, relation(inputs, options), inputs it grows with)
MODELS = {
    "keating16": ("line_co", ["mass"], lambda d: pick(d, m_min=LOGU(9, 12), A=LOGU(-7, -5)), {"scatter_lco": False}, lambda i, o: np.where(i["mass"] < o.get("m_min", 1e10), 0, o.get("A", 6.3e-7) * i["mass"]), ["mass"]),
    "li16": ("line_co", ["sfr"], lambda d: pick(d, d_mf=RATE, a=st.sampled_from([.8, 1.0, 1.2]), b=st.sampled_from([-2.0, 0.0, .5]), nu_rest=st.sampled_from([NU[2], NU[3]])), {"scatter_lco": False},
             lambda i, o: 4.9e-5 * (o.get("nu_rest", NU[1]) / NU[1])**3 * 10**((np.log10(i["sfr"] * 1e10 / o.get("d_mf", 1)) - o.get("b", -1.74)) / o.get("a", 1.37)), ["sfr"]),
    "pullen13": ("line_co", ["mass", "redshift", "cosmo"], lambda d: pick(d, sf_length=st.sampled_from([.01, .3, 1.0, 5.0])), {"rand_f_duty": False},
                 lambda i, o: 2e-6 * i["mass"] * np.minimum(1, o.get("sf_length", .1) / i["cosmo"].age(i["redshift"]).value), ["mass"]),
    "lidz11": ("line_co", ["mass"], lambda d: pick(d, f_duty=DUTY), {"rand_f_duty": False}, lambda i, o: 2.8e-5 * i["mass"] * o.get("f_duty", .1), ["mass"]),
    "kamenetzky16": ("line_co", ["sfr"], lambda d: pick(d, lines=st.lists(st.integers(1, 13), min_size=1, max_size=4), d_mf=RATE, fircor=st.sampled_from([.3, 1.0]), break_ulirgs=st.booleans()), {"scatter_lco": False}, None, []),
    "hcn_gao": ("line_densegas", ["sfr"], lambda d: pick(d, d_mf=RATE, a=st.sampled_from([.8, 1.2]), b=st.sampled_from([2.0, 3.1]), nu_rest=st.sampled_from([177.26e9, 265.88618e9])), {"scatter_lhcn": False},
                lambda i, o: 2.2e-5 * (o.get("nu_rest", 88.63e9) / 88.63e9)**3 * 10**((np.log10(i["sfr"] * 1e10 / o.get("d_mf", 1)) - o.get("b", 2.9)) / o.get("a", 1.0)), ["sfr"]),
    "hcn_breysse": ("line_densegas", ["mass"], lambda d: pick(d, f_duty=DUTY), {"rand_f_duty": False}, lambda i, o: 1.7e-15 * i["mass"]**1.67 * o.get("f_duty", .1), ["mass"]),
    "delooze14": ("line_fir", ["sfr"], None, {"scatter": False}, lambda i, o: 10**((np.log10(i["sfr"]) - DELOOZE[o.get("line", "[CII]")][o.get("set")][1]) / DELOOZE[o.get("line", "[CII]")][o.get("set")][0]), ["sfr"]),
    "uzgil14": ("line_fir", ["sfr"], lambda d: pick(d, line=st.sampled_from(list(FIRA)), d_mf=RATE), {"scatter": False},
                lambda i, o: 10**(FIRA[o.get("line", "[CII]")] * np.log10(i["sfr"] / o.get("d_mf", 1) * 1e10 * LSUN41) - UZGIL[o.get("line", "[CII]")]) / LSUN41, ["sfr"]),
    "spinoglio12": ("line_fir", ["sfr"], lambda d: pick(d, line=st.sampled_from(list(FIRA)), d_mf=RATE), {"scatter": False},
                    lambda i, o: 10**(FIRA[o.get("line", "[CII]")] * np.log10(i["sfr"] / o.get("d_mf", 1) * 1e10 * LSUN41) - SPIN[o.get("line", "[CII]")]) / LSUN41, ["sfr"]),
    "schaerer20": ("line_fir", ["sfr"], lambda d: pick(d, set=st.sampled_from(list(SCHAERER))), {"scatter": False}, lambda i, o: i["sfr"]**SCHAERER[o.get("set")][0] * 10**SCHAERER[o.get("set")][1], ["sfr"]),
    "zhao13": ("line_fir", ["sfr"], lambda d: pick(d, d_mf=RATE), {"scatter": False}, lambda i, o: (i["sfr"] * 1e10 / o.get("d_mf", 1) / 10**4.51)**(1 / .95), ["sfr"]),
    "padmanabhan19": ("line_fir", ["mass", "redshift"], lambda d: pick(d, m1=LOGU(-5, -4), b=st.sampled_from([.3, .8]), n1=LOGU(11, 12), a=st.sampled_from([1.0, 2.1])), {"scatter": False},
                      lambda i, o: (i["mass"] / o.get("m1", 2.39e-5))**o.get("b", .49) * np.exp(-o.get("n1", 4.19e11) / i["mass"]) * ((1 + i["redshift"])**2.7 / (1 + ((1 + i["redshift"]) / 2.9)**5.6))**o.get("a", 1.79), ["mass"]),
    "yang22": ("line_fir_yang", ["mass", "redshift"], lambda d: pick(d, line=st.sampled_from(list(YANG))), {"scatter": False, "fduty": False}, lambda i, o: yang(i["mass"], i["redshift"], o.get("line", "CII")), []),
    "sfr": ("sfr_behroozi13", ["redshift", "mass"], lambda d: {}, {"scatter": False}, lambda i, o: tabulated(i, 2), []),
    "stellarmass": ("sfr_behroozi13", ["redshift", "mass"], lambda d: {}, {"scatter": False}, lambda i, o: tabulated(i, 3), ["mass"]),
}
_grid = {}


def tabulated(i, col):
    """Linear interpolation of the released table in redshift and mass; flat beyond it."""
    import simim
    if not _grid:
        raw = np.loadtxt(os.path.join(os.path.dirname(simim.__file__), "resources", "behroozi13_release.dat"))
        raw = raw[np.lexsort((raw[:, 1], raw[:, 0]))]
        z, m = np.unique(raw[:, 0]) - 1, 10**np.unique(raw[:, 1])
        for c in (2, 3):
            g = raw[:, c].reshape(len(z), len(m)).copy()
            for row in g:
                ok = np.nonzero(row > -999)[0]
                row[row <= -999] = row[ok[-1]]
            _grid[c] = 10**g
        _grid["z"], _grid["m"] = z, m
    z, m, g = _grid["z"], _grid["m"], _grid[col]
    x, y = np.broadcast_arrays(np.clip(np.asarray(i["redshift"], float), z[0], z[-1]), np.clip(np.asarray(i["mass"], float), m[0], m[-1]))
    a, b = np.clip(np.searchsorted(z, x) - 1, 0, len(z) - 2), np.clip(np.searchsorted(m, y) - 1, 0, len(m) - 2)
    u, v = (x - z[a]) / (z[a + 1] - z[a]), (y - m[b]) / (m[b + 1] - m[b])
    return g[a, b] * (1 - u) * (1 - v) + g[a + 1, b] * u * (1 - v) + g[a, b + 1] * (1 - u) * v + g[a + 1, b + 1] * u * v


def kam(sfr, o):
    lir = sfr * 1e10 / o.get("d_mf", 1)
    lfir = lir * o.get("fircor", .6)
    out = []
    for j in o.get("lines", range(1, 14)):
        if o.get("break_ulirgs"):
            a, b = [np.where(lir > 6e10, KAM["ulirg"][k][j - 1], KAM["rest"][k][j - 1]) for k in (0, 1)]
        else:
            a, b = KAM["all"][0][j - 1], KAM["all"][1][j - 1]
        out.append(4.9e-5 * (NU[j] / NU[1])**3 * 10**((np.log10(lfir) - b) / a))
    return out


def inputs(seed, n, one_z, zero, dtype, zmax=10.0):
    r = np.random.default_rng(seed)
    z = r.uniform(0, zmax, n)
    r2 = r.random(n)
    z[r2 < .2] = r.choice([0., 4., 5., 1., 3.999, 5.001, 8.], int(np.sum(r2 < .2)))
    if one_z:
        z[:] = z[0]
    d = {"mass": 10**r.uniform(8, 15.5, n), "sfr": 10**r.uniform(-4, 3.5, n), "redshift": z}
    if zero:
        d["sfr"][r.random(n) < .3] = 0
    if dtype == "i8":
        d["sfr"] = np.ceil(d["sfr"])
        d["mass"] = np.ceil(d["mass"])
        d["redshift"] = np.floor(z)
    return {k: v.astype(dtype) for k, v in d.items()}


@st.composite
def relations(draw):
    name = draw(st.sampled_from(sorted(MODELS) + ["yang22", "yang22", "kamenetzky16", "delooze14"]))
    if name == "delooze14":
        line = draw(st.sampled_from(list(DELOOZE)))
        opts = {"line": line, "set": draw(st.sampled_from(list(DELOOZE[line])))}
        opts = {k: v for k, v in opts.items() if k == "line" and v != "[CII]" or draw(st.integers(0, 3))}
        if opts.get("set") == "high z":
            opts["line"] = "[CII]"
    else:
        opts = MODELS[name][2](draw)
    return {"model": name, "opts": opts, "seed": draw(SEED), "n": draw(sizes(st.one_of(st.integers(1, 8), st.integers(90, 250)), large=(1500, 9000, 40000), one_in=40)), "one_z": draw(st.booleans()), "zero": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["f8", "f8", "f8", "f4", "i8"])), "scalar_z": draw(st.booleans()), "sub": draw(SEED), "h": draw(st.sampled_from([.5, .7, 1.0])), "om": draw(st.sampled_from([.2, .3]))}


def relation(case, t):
    import importlib
    name, o = case["model"], case["opts"]
    mod, ins, _, off, ref, grows = MODELS[name]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        fn = getattr(importlib.import_module("simim.galprops." + mod), name)
        arr = inputs(case["seed"], case["n"], case["one_z"], case["zero"] and name not in ("none",), case["dtype"])
        arr["cosmo"] = hand.cosmology(case["h"], case["om"])
        if name == "keating16" and case["dtype"] != "f4":  # galaxies exactly at the least mass that emits
            arr["mass"][:: 3] = o.get("m_min", 1e10)
        i = {k: arr[k] for k in ins}
        n = case["n"]
        if case["scalar_z"] and "redshift" in i:
            i["redshift"] = i["redshift"][0].item()
        keep = {k: np.copy(v) for k, v in i.items() if k != "cosmo"}

        def call(a):
            got = fn(**a, **off, **o)
            return list(got) if name == "kamenetzky16" else [got]
        got = call(i)
        what = f"{name}({o})"
        exact = {k: v if k == "cosmo" else np.asarray(v, float) for k, v in i.items()}
        want = kam(exact["sfr"], o) if name == "kamenetzky16" else [ref(exact, o)]
        t.check(len(got) == len(want), f"{what}: {len(got)} results")
        coarse = name == "pullen13" and np.size(i["redshift"]) > 100  # ages may be interpolated between many redshifts
        tol = 2e-2 if coarse else 5e-4 if mod == "sfr_behroozi13" else 2e-4 if case["dtype"] == "f4" else 1e-4 if name == "yang22" else 1e-9
        for g, w in zip(got, want):
            t.check(np.shape(g) == (n,), f"{what}: result of shape {np.shape(g)} for {n} galaxies")
            t.check(np.all(np.isfinite(g)) and np.all(np.asarray(g) >= 0), f"{what}: values {g} for {i}")
            t.close(np.asarray(g, float), np.broadcast_to(w, (n,)), f"{what} of {i}", rtol=tol, atol=1e-30)
        t.check(all(np.array_equal(keep[k], i[k]) for k in keep), f"{what}: the inputs were changed")
        # the value of a galaxy does not depend on the others
        r = np.random.default_rng(case["sub"])
        idx = r.permutation(n)[: r.integers(1, n + 1)]
        part = {k: v if k == "cosmo" or np.ndim(v) == 0 else v[idx] for k, v in i.items()}
        for g, p in zip(got, call(part)):
            t.close(np.asarray(p, float), np.asarray(g, float)[idx], f"{what}: galaxies {idx[:9]} on their own", rtol=tol if coarse or mod == "sfr_behroozi13" else 1e-5 if case["dtype"] == "f4" else 1e-10, atol=1e-30)
        # a single galaxy given as numbers
        one = {k: v if k == "cosmo" or np.ndim(v) == 0 else v[idx[0]].item() for k, v in i.items()}
        for g, p in zip(got, call(one)):
            t.check(np.size(p) == 1, f"{what} of {one}: {p}")
            t.close(float(np.ravel(p)[0]), float(g[idx[0]]), f"{what} of the numbers {one}", rtol=max(tol, 1e-9), atol=1e-30)
        # growth
        for k in grows:
            up = {a: (np.sort(v) if a == k else v if a == "cosmo" or np.ndim(v) == 0 else np.full(n, v[0])) for a, v in i.items()}
            for g in call(up):
                g = np.asarray(g, float)
                t.check(np.all(np.diff(g) >= -1e-5 * g[1:]), f"{what}: does not grow with {k}: {g} for {up[k]}")
    t.label(name)
    t.nontrivial(n > 1)


@st.composite
def refusals(draw):
    kind = draw(st.sampled_from(["delooze line", "delooze set", "uzgil", "spinoglio", "schaerer", "yang", "kamenetzky", "padmanabhan"]))
    return {"kind": kind, "word": draw(st.sampled_from(["CII", "[CII] ", "high z", "nothing", "[SII]", "CO6-5", "ALPINE"])), "line": draw(st.sampled_from(["[OI]", "[OIII]"])), "j": draw(st.sampled_from([0, 14, -1])), "seed": draw(SEED)}


def refusal(case, t):
    from simim.galprops import line_co, line_fir, line_fir_yang
    i = inputs(case["seed"], 3, False, False, "f8")
    w, k = case["word"], case["kind"]
    if k == "yang" and w == "CII":
        w = "nothing"
    call = {"delooze line": lambda: line_fir.delooze14(i["sfr"], line=w), "delooze set": lambda: line_fir.delooze14(i["sfr"], line=case["line"], set=w), "uzgil": lambda: line_fir.uzgil14(i["sfr"], line=w),
            "spinoglio": lambda: line_fir.spinoglio12(i["sfr"], line=w), "schaerer": lambda: line_fir.schaerer20(i["sfr"], set=w), "yang": lambda: line_fir_yang.yang22(i["mass"], i["redshift"], line=w),
            "kamenetzky": lambda: line_co.kamenetzky16(i["sfr"], lines=[1, case["j"]]), "padmanabhan": lambda: line_fir.padmanabhan19(i["mass"], i["redshift"], scatter=True)}[k]
    t.raises(call, f"{case}", ValueError)
    t.label(k)
    t.nontrivial(True)


SMF = [(.025, .06, 10**10.64, -.43, 4.18e-3, -1.5, .74e-3), (.2, .5, 10**10.83, -.95, 10**-2.63, -1.82, 10**-4.01), (.5, .8, 10**10.76, -.57, 10**-2.66, -1.49, 10**-3.24), (.8, 1.1, 10**10.68, -.33, 10**-2.57, -1.49, 10**-3.24),
       (1.1, 1.5, 10**10.66, .19, 10**-2.88, -1.49, 10**-3.24), (1.5, 2.0, 10**10.51, .82, .64e-3, -1.28, .969e-3), (2.0, 2.5, 10**10.6, .07, .45e-3, -1.57, .295e-3), (2.5, 3.0, 10**10.59, -.08, .21e-3, -1.67, .228e-3),
       (3.0, 3.5, 10**10.83, 0, 0, -1.76, .09e-3), (3.5, 4.5, .61 * 10**10.96, 0, 0, -1.63, 10**-3.94), (4.5, 5.5, .61 * 10**10.78, 0, 0, -1.63, 10**-4.18), (5.5, 6.5, .61 * 10**10.49, 0, 0, -1.55, 10**-4.16), (6.5, 7.5, .61 * 10**10.69, 0, 0, -1.88, 10**-5.24)]
SFF = {"fq00": .1017, "gamma": -1.039, "logmt0": 10.53, "alpha1": .2232, "alpha2": .0913, "sigsf0": .8488, "beta1": .0418, "beta2": -.0159}
SFMS = {"m0": .5, "m1": .36, "a0": 1.5, "a1": .3, "a2": 2.5}


@st.composite
def fits(draw):
    return {"seed": draw(SEED), "n": draw(st.integers(1, 30)), "scalar_z": draw(st.booleans()), "h": draw(st.sampled_from([.5, .7, 1.0])), "om": draw(st.sampled_from([.2, .3])), "lowz": draw(st.booleans()),
            "sff": {k: draw(st.sampled_from([.5, 1.0, 1.2])) for k in SFF if draw(st.booleans())}, "sfms": {k: draw(st.sampled_from([.5, 1.0, 1.5])) for k in SFMS if draw(st.booleans())},
            "lf": {k: draw(st.sampled_from([.5, .9, 1.3])) for k in ("alpha0", "sigma0", "lstar0", "phistar0") if draw(st.booleans())}, "given": {k: draw(st.sampled_from([.5, .9, 1.3])) for k in ("alpha0", "sigma0", "lstar0", "phistar0") if draw(st.integers(0, 3)) == 0}}


_home = []


def instance(cls, t, **kw):
    """Model objects look up where to keep their tables; none are there."""
    if not _home:
        c = hand.cosmology(.7)
        import simim._paths as P
        root = P._SimIMPaths().root
        folder = os.path.join(root, "p28box")
        hand.write_sim(folder, .7, .3, .05, 50.0, hand.snap_table(c, [0], [0.0]), {0: hand.catalog(1, 3, list(hand.STORED)[:9])})
        hand.register(folder)
        _home.append(folder)
    return cls("_testbox", **kw)


def fit(case, t):
    from scipy.special import erf
    from simim.galprops.sfr_bethermin17 import bethermin17_base
    from simim.galprops.sfr_ir import g13irlf_base
    from astropy.cosmology import FlatLambdaCDM
    r = np.random.default_rng(case["seed"])
    n = case["n"]
    z = r.uniform(0, 8, n)
    q = r.random(n)
    z[q < .3] = r.choice([0, .22, .3, .49, .5, 1.0, 1.1, 2.0, 2.1], int(np.sum(q < .3)))
    zz = float(z[0]) if case["scalar_z"] else z
    m = 10**r.uniform(6, 12, n)
    sff = {k: SFF[k] * case["sff"].get(k, 1) for k in SFF}
    sfms = {k: SFMS[k] * case["sfms"].get(k, 1) for k in SFMS}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        b = instance(bethermin17_base, t, sfms_correztlowz=case["lowz"], **{"sffrac_" + k: sff[k] for k in case["sff"]}, **{"sfms_" + k: sfms[k] for k in case["sfms"]})
        x, zb = np.log10(m), np.broadcast_to(zz, (n,))
        keep = m.copy(), np.copy(zz)
        t2 = np.maximum(x - 9 - sfms["m1"] - sfms["a2"] * np.log10(1 + zb), 0)
        ms = x - 9 - sfms["m0"] + sfms["a0"] * np.log10(1 + zb) - sfms["a1"] * t2**2
        if case["lowz"]:
            ms = ms - np.where(zb < .5, .1 * (.5 - zb) / .28, 0)
        t.close(b.b17_sfms(m, zz), 10**ms, f"main sequence at {m[:5]}, {z[:5]}, parameters {case['sfms']}", rtol=1e-9)
        ff = (1 - sff["fq00"] * (1 + zb)**sff["gamma"]) / 2 * (1 - erf((x - sff["logmt0"] - sff["alpha1"] * zb - sff["alpha2"] * zb**2) / (sff["sigsf0"] + sff["beta1"] * zb + sff["beta2"] * zb**2)))
        t.close(b.b17_sffrac(m, zz), ff, f"star-forming fraction at {m[:5]}, {z[:5]}, parameters {case['sff']}", rtol=1e-8, atol=1e-12)
        t.close(np.broadcast_to(b.b17_sbfrac(m, zz), (n,)), .015 + .015 * np.minimum(zb, 1), f"starburst fraction at {z[:5]}", rtol=1e-9)
        t.check(np.array_equal(keep[0], m) and np.array_equal(keep[1], zz), "the inputs were changed")
        # stellar mass function
        c, ob = hand.cosmology(case["h"], case["om"]), FlatLambdaCDM(H0=70, Om0=.3)
        s = np.array(SMF)
        mid = (s[:, 0] + s[:, 1]) / 2
        dv = ob.differential_comoving_volume(mid).value / c.differential_comoving_volume(mid).value
        dl = (c.luminosity_distance(mid).value / ob.luminosity_distance(mid).value)**2

        def line(v):
            return np.interp(zz, mid, v)
        want = [10**line(np.log10(s[:, 2] * dl)), line(s[:, 3]), line(s[:, 4] * dv), line(s[:, 5]), 10**line(np.log10(s[:, 6] * dv))]
        for nm, g, w in zip(("characteristic mass", "first slope", "first density", "second slope", "second density"), b.b17_smfpars(zz, c), want):
            t.close(g, w, f"{nm} of the stellar mass function at {z[:5]}", rtol=1e-9, atol=1e-12)
        # infrared luminosity function
        base = {"alpha0": 1.2, "sigma0": .5, "lstar0": 10**9.95, "phistar0": 10**-2.25}
        own = {k: base[k] * case["lf"].get(k, 1) for k in base}
        g = instance(g13irlf_base, t, **{"lf_" + k: own[k] for k in case["lf"]})
        given = {k: base[k] * v for k, v in case["given"].items()}
        p = {**own, **given}
        want = [p["phistar0"] * np.where(zb < 1.1, (1 + zb)**-.57, 2.1**-.57 * ((1 + zb) / 2.1)**-3.92), p["lstar0"] * np.where(zb < 2, (1 + zb)**3.55, 3**3.55 * ((1 + zb) / 3)**1.62), np.full(n, p["alpha0"]), np.full(n, p["sigma0"])]
        for nm, a, w in zip(("density", "luminosity", "slope", "width"), g.get_irlf_pars(zz, **given), want):
            t.close(np.broadcast_to(a, (n,)), w, f"{nm} of the infrared luminosity function at {z[:5]}, parameters {case['lf']}, given {case['given']}", rtol=1e-9)
        for call in (lambda: g.lir(m, z), lambda: g.sfr(m, z), lambda: b.stellarmass(m, z)):
            t.raises(call, "no table computed", ValueError)
    t.nontrivial(n > 1 and bool(case["sff"] or case["sfms"] or case["lf"]))


CHECKS = [Check("relation", relations(), relation, quick=3600, thorough=20000), Check("refusal", refusals(), refusal, quick=360, thorough=500), Check("fit", fits(), fit, quick=1200, thorough=6000)]
