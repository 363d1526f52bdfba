"""P29: scatter and duty cycles of the built-in models."""
import importlib
import inspect
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib import hand
from vlib.grids import SEED
from props.p28 import MODELS, YANG, instance, kam

LN10 = np.log(10)
# model: (scatter switch, width option, default width, keeps the mean)
SCATTER = {"keating16": ("scatter_lco", "sig_lco", .3, False), "li16": ("scatter_lco", "sig_lco", .3, True), "kamenetzky16": ("scatter_lco", "sig_lco", .3, False), "hcn_gao": ("scatter_lhcn", "sig_lhcn", .3, True),
           "delooze14": ("scatter", "fix_scatter", None, False), "uzgil14": ("scatter", "sig_scatter", .4, False), "spinoglio12": ("scatter", "sig_scatter", .4, False), "schaerer20": ("scatter", "sig_scatter", .4, False),
           "zhao13": ("scatter", "sig_scatter", .4, False), "padmanabhan19": ("scatter", "sig_scatter", None, True), "yang22": ("scatter", "fix_scatter", None, False),
           "sfr": ("scatter", "sigma_scatter", .3, True), "stellarmass": ("scatter", "sigma_scatter", .3, True)}
DELOOZE = {"[CII]": {None: .42, "DGS": .40, "dwarfs": .37, "starbursts": .27, "comp/AGN": .37, "high z": .40}, "[OI]": {None: .42, "DGS": .25, "dwarfs": .27, "starbursts": .20, "comp/AGN": .35}, "[OIII]": {None: .66, "DGS": .30, "dwarfs": .30, "starbursts": .23, "comp/AGN": .35}}
YSIG = {"CII": None, "CI1-0": (.39, -.076, .0063), "CI2-1": (.46, -.096, .0079), "CO1-0": (.357, -.0701, .00621), "CO2-1": (.36, -.072, .0064), "CO3-2": (.40, -.083, .0070), "CO4-3": (.42, -.091, .0079), "CO5-4": (.44, -.085, .0063)}
K = 7.0  # standard errors allowed


def ysig(line, z):
    if line == "CII":
        return .32 * np.exp(-z / 1.5) + .18
    a, b, c = YSIG[line]
    return a + b * z + c * z**2


def moments(t, x, width, mean_kept, what):
    """x: log10 of scattered over unscattered, one column; width: number or array."""
    width = np.broadcast_to(width, x.shape)
    shift = -width**2 * LN10 / 2 if mean_kept else 0 * width
    u = (x - shift) / width
    n = len(u)
    t.check(abs(u.mean()) < K / n**.5, f"{what}: centre off by {u.mean():.4f} of the width over {n} galaxies ({'mean' if mean_kept else 'median'} to be kept)")
    t.check(abs(u.std() - 1) < K / (2 * n)**.5, f"{what}: width is {u.std():.4f} times the stated one over {n} galaxies")
    t.check(abs((u**3).mean()) < K * (15 / n)**.5 and abs((u**4).mean() - 3) < K * (96 / n)**.5, f"{what}: not log-normal over {n} galaxies, third and fourth moments {(u**3).mean():.3f}, {(u**4).mean():.3f}")
    for lag in (1, 2, n // 2):
        t.check(abs((u[lag:] * u[:-lag]).mean()) < K / (n - lag)**.5, f"{what}: galaxies {lag} apart are correlated")
    o = np.argsort(u)
    t.check(np.all(np.diff(u[o]) > 0), f"{what}: galaxies share the same scatter")


def states(fn):
    out = [np.random.get_state()[1].tolist(), np.random.get_state()[2]]
    d = inspect.signature(fn).parameters["rng"].default
    out.append(str(d.bit_generator.state) if isinstance(d, np.random.Generator) else None)
    return out


def model(name):
    return getattr(importlib.import_module("simim.galprops." + MODELS[name][0]), name)


def galaxies(seed, n, same, ins, zero=False):
    r = np.random.default_rng([seed, 77])  # never the stream given to the model
    g = {"mass": 10**r.uniform(10.3, 14, n), "sfr": 10**r.uniform(-2, 3, n), "redshift": r.uniform(0, 7, n)}
    if same:
        g = {k: np.full(n, v[0]) for k, v in g.items()}
    g["cosmo"] = hand.cosmology(.7)
    return {k: g[k] for k in ins}


@st.composite
def scattered(draw):
    name = draw(st.sampled_from(sorted(SCATTER)))
    opts = {}
    if name == "delooze14":
        line = draw(st.sampled_from(list(DELOOZE)))
        opts = {"line": line, "set": draw(st.sampled_from(list(DELOOZE[line])))}
    elif name == "yang22":
        opts = {"line": draw(st.sampled_from(list(YANG)))}
    elif name in ("uzgil14", "spinoglio12"):
        opts = {"line": draw(st.sampled_from(["[CII]", "[OI]", "[NeIII]"]))}
    elif name == "kamenetzky16":
        opts = {"lines": draw(st.sampled_from([[1], [1, 2], [4, 7, 13]])), "break_ulirgs": draw(st.booleans())}
    width = draw(st.sampled_from([None, None, 0.0, .1, .3, .8]))
    if width is None and name == "padmanabhan19":
        width = .25
    return {"model": name, "opts": opts, "width": width, "seed": draw(SEED), "rng": draw(SEED), "other": draw(SEED), "n": draw(st.sampled_from([2000, 4000])), "same": draw(st.booleans())}


def scatter(case, t):
    name, o, w = case["model"], dict(case["opts"]), case["width"]
    switch, option, default, mean_kept = SCATTER[name]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        fn = model(name)
        i = galaxies(case["seed"], case["n"], case["same"], MODELS[name][1])
        if name == "yang22":
            o["fduty"] = False
        base = fn(**i, **o, **{switch: False})
        base = np.array(base).T if name == "kamenetzky16" else np.array(base)[:, None]
        kw = {} if w is None else {option: w}
        if name == "padmanabhan19":
            kw["scatter"] = True

        def call(seed):
            g = fn(**i, **o, **kw, rng=np.random.default_rng(seed))
            return np.array(g).T if name == "kamenetzky16" else np.array(g)[:, None]
        before = states(fn)
        got = call(case["rng"])
        what = f"{name}({o}, {kw})"
        t.check(states(fn) == before, f"{what}: another random generator than the one supplied was used")
        np.random.seed(case["other"] % 2**32)
        t.check(np.array_equal(call(case["rng"]), got), f"{what}: two calls with equal seeds differ")
        t.check(got.shape == base.shape, f"{what}: shapes {got.shape}, {base.shape}")
        sig = w
        if w is None:
            sig = DELOOZE[o["line"]][o["set"]] if name == "delooze14" else ysig(o["line"], i["redshift"]) if name == "yang22" else default
        if w == 0:
            t.close(got, base, f"{what}: scatter of no width", rtol=1e-10)
        else:
            t.check(not np.array_equal(call(case["rng"] + 1), got), f"{what}: two seeds give the same")
            rng = np.random.default_rng(case["rng"])
            a = fn(**i, **o, **kw, rng=rng)
            b = fn(**i, **o, **kw, rng=rng)
            t.check(not np.array_equal(a, b), f"{what}: the generator does not move on")
            with np.errstate(all="ignore"):
                x = np.log10(got / base)
            for j in range(x.shape[1]):
                moments(t, x[:, j], sig, mean_kept, what)
                for k in range(j):  # lines of a galaxy scatter on their own
                    c = np.corrcoef(x[:, j], x[:, k])[0, 1]
                    t.check(abs(c) < K / len(x)**.5, f"{what}: the scatter of lines {k} and {j} is correlated ({c:.3f})")
    t.label(name, "default width" if w is None else "width 0" if w == 0 else "width given")
    t.nontrivial(w != 0)


@st.composite
def helpers(draw):
    return {"dex": draw(st.one_of(st.just(0.0), st.integers(1, 20).map(lambda k: k / 16), st.just("array"))), "keep": draw(st.sampled_from([None, False, True])), "kind": draw(st.sampled_from(["array", "array", "2d", "float", "zeros", "int"])), "seed": draw(SEED), "rng": draw(SEED), "x": draw(st.sampled_from([1e-3, 1.0, 3e12]))}


def helper(case, t):
    from simim.galprops.log10normal import log10normal
    n = 4000
    r = np.random.default_rng([case["seed"], 77])
    x = case["x"] * 10**r.uniform(-2, 2, n)
    kind = case["kind"]
    if kind == "int":
        x = np.ceil(x).astype(int)
    if kind == "zeros":
        x[::3] = 0
    shaped = x.reshape(80, 50) if kind == "2d" else float(x[0]) if kind == "float" else x
    keep = np.copy(shaped)
    dex = case["dex"]
    if dex == "array":
        dex = r.uniform(.05, .6, n).reshape(np.shape(shaped)) if kind != "float" else .3
    kw = {} if case["keep"] is None else {"preserve_linear_mean": case["keep"]}
    before = states(log10normal)
    rng = np.random.default_rng(case["rng"])
    if kind == "float":
        got = np.array([log10normal(shaped, dex, rng=rng, **kw) for _ in range(n)])
        flat, w = np.full(n, shaped), dex
    else:
        got = log10normal(shaped, dex, rng=rng, **kw)
        flat, w = x.astype(float), np.broadcast_to(dex, np.shape(shaped)).ravel()
        t.check(np.shape(got) == np.shape(shaped), f"shape {np.shape(got)} of {np.shape(shaped)}")
        t.check(np.array_equal(got, log10normal(shaped, dex, rng=np.random.default_rng(case["rng"]), **kw)), "equal seeds differ")
    t.check(states(log10normal) == before, "another generator than the one supplied was used")
    t.check(np.array_equal(keep, shaped), "the input was changed")
    got = np.ravel(got)
    t.check(np.all(np.isfinite(got)) and np.all((got == 0) == (flat == 0)) and np.all(got >= 0), "values not finite, negative, or zero where they were not")
    if np.all(np.asarray(w) == 0):
        t.close(got, flat, "no scatter", rtol=1e-12)
    else:
        ok = flat > 0
        moments(t, np.log10(got[ok] / flat[ok]), np.broadcast_to(w, (n,))[ok], bool(case["keep"]), f"log10normal(dex={case['dex']}, {kw}) of {kind}")
    t.nontrivial(case["dex"] != 0)


@st.composite
def duties(draw):
    return {"model": draw(st.sampled_from(["lidz11", "hcn_breysse", "pullen13", "yang22", "yang22"])), "f": draw(st.sampled_from([None, 0.0, .02, .3, .9, 1.0])), "length": draw(st.sampled_from([None, .02, .5, 3.0, 20.0])), "line": draw(st.sampled_from(list(YANG))), "n": draw(st.sampled_from([50, 3000])),
            "seed": draw(SEED), "rng": draw(SEED), "other": draw(SEED), "same": draw(st.booleans()), "scalar_z": draw(st.booleans())}


def duty(case, t):
    name = case["model"]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        fn = model(name)
        i = galaxies(case["seed"], case["n"], case["same"], MODELS[name][1])
        if case["scalar_z"] and "redshift" in i:
            i["redshift"] = float(i["redshift"][0])
        n = case["n"]
        if name in ("lidz11", "hcn_breysse"):
            kw = {} if case["f"] is None else {"f_duty": case["f"]}
            f = np.full(n, kw.get("f_duty", .1))
            full = 2.8e-5 * i["mass"] if name == "lidz11" else 1.7e-15 * i["mass"]**1.67
        elif name == "pullen13":
            kw = {} if case["length"] is None else {"sf_length": case["length"]}
            f = np.broadcast_to(np.minimum(1, kw.get("sf_length", .1) / i["cosmo"].age(i["redshift"]).value), (n,))
            full = 2e-6 * i["mass"]
        else:
            kw = {"line": case["line"], "scatter": False}
            z = np.broadcast_to(i["redshift"], (n,))
            f = np.where(z < 4, 1 / (1 + (i["mass"] / 10**(11.73 + .6634 * z))**(1.37 - .19 * z + .0215 * z**2)), 1.0)
            full = fn(**i, **kw, fduty=False)
        what = f"{name}({kw}) of {n} galaxies"
        before = states(fn)
        got = fn(**i, **kw, rng=np.random.default_rng(case["rng"]))
        t.check(states(fn) == before, f"{what}: another random generator than the one supplied was used")
        np.random.seed(case["other"] % 2**32)
        t.check(np.array_equal(fn(**i, **kw, rng=np.random.default_rng(case["rng"])), got), f"{what}: two calls with equal seeds differ")
        t.check(np.shape(got) == (n,), f"{what}: shape {np.shape(got)}")
        on = got != 0
        t.close(got[on], np.asarray(full)[on], f"{what}: galaxies that are on", rtol=1e-9)
        t.check(np.all(on[f >= 1]) and not np.any(on[f <= 0]), f"{what}: galaxies off that are always on, or on that are always off")
        var = np.sum(f * (1 - f))
        t.check(abs(np.sum(on) - np.sum(f)) <= K * var**.5 + 2, f"{what}: {np.sum(on)} galaxies on, {np.sum(f):.1f} expected")
        half = i["mass"] > np.median(i["mass"])
        for sel, w in ((half, "massive"), (~half, "light"), (np.arange(n) < n // 2, "first"), (np.arange(n) % 2 == 0, "every second")):
            v = np.sum((f * (1 - f))[sel])
            t.check(abs(np.sum(on[sel]) - np.sum(f[sel])) <= K * v**.5 + 2, f"{what}: {np.sum(on[sel])} of the {w} galaxies on, {np.sum(f[sel]):.1f} expected")
        if name != "yang22":
            t.close(fn(**i, **kw, rand_f_duty=False), full * f, f"{what}: fraction applied to all", rtol=2e-2 if name == "pullen13" and n > 100 else 1e-9)
    t.label(name)
    t.nontrivial(np.any((f > 0) & (f < 1)))


@st.composite
def rates(draw):
    return {"n": draw(st.sampled_from([40, 3000])), "seed": draw(SEED), "rng": draw(SEED), "other": draw(SEED), "scalar_z": draw(st.booleans()), "same": draw(st.booleans()), "sigma": draw(st.sampled_from([None, 0.0, .2])), "ms": draw(st.sampled_from([None, .5])), "sb": draw(st.sampled_from([None, 20.0])), "limit": draw(st.sampled_from([None, 30.0]))}


def rate(case, t):
    from simim.galprops.sfr_bethermin17 import bethermin17_base
    r = np.random.default_rng([case["seed"], 77])
    n = case["n"]
    m, z = 10**r.uniform(8, 11.5, n), r.uniform(0, 4, n)
    if case["same"]:
        m[:], z[:] = m[0], z[0]
    if case["scalar_z"]:
        z = float(z[0])
    kw = {k: v for k, v in (("sfms_sigma", case["sigma"]), ("sfms_msoffset", case["ms"]), ("sfms_sboffset", case["sb"]), ("sf_sflimit", case["limit"])) if v is not None}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        b = instance(bethermin17_base, t, **kw)
        sigma, ms, sb, limit = kw.get("sfms_sigma", .3), kw.get("sfms_msoffset", .87), kw.get("sfms_sboffset", 5.3), kw.get("sf_sflimit", 1e4)
        before = states(b.b17_sfr)
        got, issb, isq = b.sfr(m, z, rng=np.random.default_rng(case["rng"]), return_fracs=True)
        t.check(states(b.b17_sfr) == before, "another random generator than the one supplied was used")
        np.random.seed(case["other"] % 2**32)
        t.check(np.array_equal(b.sfr(m, z, rng=np.random.default_rng(case["rng"])), got), "two calls with equal seeds differ")
        t.check(np.shape(got) == (n,) and np.all(np.isfinite(got)) and np.all(got >= 0) and np.all(got <= limit), f"rates {got} (limit {limit})")
        t.check(np.array_equal(got == 0, isq), "quenched galaxies are those without star formation")
        t.check(not np.any(issb & isq), "a galaxy is both quenched and a starburst")
        base = b.b17_sfms(m, z) * np.where(issb, sb, ms)
        free = ~isq & (got < limit)
        with np.errstate(all="ignore"):
            x = np.log10(got / base)
        if sigma == 0:
            t.close(got[~isq], np.minimum(base, limit)[~isq], "rates without scatter", rtol=1e-9)
        elif np.array_equal(free, ~isq) and np.sum(free) > 500:
            moments(t, x[free], sigma, False, f"star-formation rates {kw}")
        fsf, fsb = np.broadcast_to(b.b17_sffrac(m, z), (n,)), np.broadcast_to(b.b17_sbfrac(m, z), (n,))
        for sel, p, w in ((~isq, fsf, "star-forming"), (issb, fsf * fsb, "starburst")):
            t.check(abs(np.sum(sel) - np.sum(p)) <= K * np.sum(p * (1 - p))**.5 + 2, f"{np.sum(sel)} {w} galaxies of {n}, {np.sum(p):.1f} expected")
        half = m > np.median(m)
        t.check(abs(np.sum(~isq & half) - np.sum(fsf[half])) <= K * np.sum((fsf * (1 - fsf))[half])**.5 + 2, f"{np.sum(~isq & half)} massive star-forming galaxies, {np.sum(fsf[half]):.1f} expected")
    t.nontrivial(n > 100)


CHECKS = [Check("scatter", scattered(), scatter, quick=400, thorough=6000), Check("helper", helpers(), helper, quick=120, thorough=2000), Check("duty", duties(), duty, quick=300, thorough=4000), Check("rate", rates(), rate, quick=160, thorough=2500)]
