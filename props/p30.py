"""P30: distribution functions against quadrature of the published forms."""
import warnings
import numpy as np
from scipy.integrate import quad
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED

LN10 = np.log(10)
BIN = .002 * LN10  # the tabulated families are sums over cells of this logarithmic width


class Family:
    """Value of the function per unit x, and how it counts objects."""

    def __init__(self, name, p):
        self.name, self.p, self.xmin = name, p, p["xmin"]
        self.table = name in ("modified_schechter_gen", "double_power_law_gen")
        self._cache = {}

    def form(self, x):
        p = self.p
        u = x / p["x0"]
        if self.name == "schechter_gen":
            return p["phi0"] * u**p["alpha"] * np.exp(-u) / p["x0"]
        if self.name == "double_schechter_gen":
            return (p["phi1"] * u**p["alpha1"] + p["phi2"] * u**p["alpha2"]) * np.exp(-u) / p["x0"]
        if self.name == "modified_schechter_gen":  # per dex
            return p["phi0"] * u**(1 - p["alpha"]) * np.exp(-np.log10(1 + u)**2 / 2 / p["sigma"]**2)
        return p["phi0"] / (u**p["alpha"] + u**p["beta"])

    def per_log(self, x):
        """Objects per unit of ln x."""
        return self.form(x) / LN10 if self.table else self.form(x) * x

    def above(self, x):
        """Number of objects above x."""
        x = max(float(x), self.xmin)
        if x not in self._cache:
            lo, hi = np.log(x), np.log(self.xmin) + 20 * LN10
            if not self.table:
                hi = max(np.log(self.p["x0"] * 60 + x), lo + 1e-9)
                hi = np.log(x + 60 * self.p["x0"])
            total, pts = 0.0, np.arange(lo, hi, 1.0).tolist() + [hi]
            for a, b in zip(pts[:-1], pts[1:]):
                v = quad(lambda s: self.per_log(np.exp(s)), a, b, epsabs=0, epsrel=1e-10)[0]
                total += v
                if total > 0 and v < 1e-14 * total:
                    break
            self._cache[x] = total
        return self._cache[x]

    def peak(self):
        x = np.exp(np.linspace(np.log(self.xmin), np.log(self.xmin) + (20 * LN10 if self.table else 40), 4000))
        with np.errstate(all="ignore"):
            return float(np.nanmax(self.per_log(x))) / self.above(self.xmin)


SLOPE = st.one_of(st.sampled_from([-2.0, -1.0, 0.0, -1.5, -.5, 1.0]), st.integers(-270, 150).map(lambda k: k / 100))


def scale():
    return st.integers(-300, 300).map(lambda k: k / 100)


@st.composite
def families(draw, only=None):
    name = draw(st.sampled_from(only or ["schechter_gen", "double_schechter_gen", "modified_schechter_gen", "double_power_law_gen"]))
    x0 = 10.0**draw(st.integers(-8, 44)) ** .25 if False else 10**(draw(st.integers(-4, 22)) / 2)
    depth = draw(st.integers(-4, 24)) / 4  # how far below x0 the lower limit lies, in dex
    phi = 10**(draw(st.integers(-24, 8)) / 4)
    p = {"x0": x0, "xmin": x0 * 10**-depth}
    if name == "schechter_gen":
        p.update(alpha=draw(SLOPE), phi0=phi)
    elif name == "double_schechter_gen":
        p.update(alpha1=draw(SLOPE), phi1=phi, alpha2=draw(SLOPE), phi2=phi * draw(st.sampled_from([0.0, .01, .3, 1.0, 20.0])))
        if p["phi2"] and draw(st.integers(0, 5)) == 0:
            p["phi1"] = 0.0
    elif name == "modified_schechter_gen":
        p.update(alpha=draw(st.sampled_from([.2, .8, 1.0, 1.2, 1.6])), sigma=draw(st.sampled_from([.2, .35, .5, .8])), phi0=phi)
    else:
        p.update(alpha=draw(st.sampled_from([-.5, 0.0, .3, .8])), beta=draw(st.sampled_from([1.0, 1.7, 2.5, 4.0])), phi0=phi)
    if name in ("schechter_gen", "double_schechter_gen") and depth < 0:
        p["xmin"] = x0 * 10**min(-depth, .5)
    return {"family": name, "p": p}


@st.composite
def points(draw):
    f = draw(families())
    return {**f, "u": [draw(st.integers(0, 1000)) / 1000 for _ in range(draw(st.integers(1, 6)))], "below": draw(st.booleans()), "q": [draw(st.integers(1, 999)) / 1000 for _ in range(draw(st.integers(1, 6)))], "seed": draw(SEED), "draws": draw(st.booleans()), "frozen": draw(st.booleans())}


def make(case, t):
    from simim.galprops import galprops_am as A
    return getattr(A, case["family"])()


def agree(case, t):
    fam = Family(case["family"], case["p"])
    p = case["p"]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        gen = make(case, t)
        if case["frozen"]:
            d = gen(**p)
            cdf, ppf, pdf, sf = d.cdf, d.ppf, d.pdf, d.sf
        else:
            cdf, ppf, pdf, sf = [lambda v, m=m: getattr(gen, m)(v, **p) for m in ("cdf", "ppf", "pdf", "sf")]
        total = fam.above(fam.xmin)
        peak = fam.peak()
        # a table of cells 0.002 dex wide is off by up to about a cell's content
        slack = BIN * peak + 1e-6 if fam.table else 1e-9
        top = fam.xmin * 1e6 if fam.table else max(fam.p["x0"] * 8, fam.xmin * 1.001)
        xs = np.sort(fam.xmin * (top / fam.xmin)**np.array(case["u"]))
        if case["below"]:
            xs = np.concatenate([[fam.xmin / 7, fam.xmin * .999], xs])
        what = f"{case['family']}({p})"
        want = np.array([0.0 if x <= fam.xmin else 1 - fam.above(x) / total for x in xs])
        got = np.asarray(cdf(xs), float)
        t.close(got, want, f"{what}: fraction below {xs}", atol=slack, rtol=0)
        t.close(np.asarray(sf(xs), float), 1 - got, f"{what}: fraction above", atol=1e-12, rtol=0)
        t.check(np.all(np.diff(got) >= -1e-9), f"{what}: cumulative function {got} not increasing over {xs}")
        dens = np.array([0.0 if x < fam.xmin else fam.per_log(x) / x / total for x in xs])
        inside = (xs < fam.xmin * .9999) | (xs > fam.xmin * 1.0001)
        t.close(np.asarray(pdf(xs), float)[inside], dens[inside], f"{what}: density at {xs}", rtol=2 * BIN * max(peak, 1) + 1e-6 if fam.table else 1e-8, atol=0)
        for x, c, f_ in zip(xs, got, dens):  # numbers in place of arrays
            t.close(float(cdf(float(x))), c, f"{what}: fraction below the number {x}", atol=1e-12)
        # the function and its integral
        up = xs[xs > fam.xmin * 1.0001]
        if len(up):
            t.close(gen.lum_function(up, **p), [fam.form(x) for x in up], f"{what}: function at {up}", rtol=1e-9)
        t.close(np.asarray(gen.lum_function(np.array([fam.xmin * .9, fam.xmin * 1.1]), **p))[0], 0.0, f"{what}: function below the lower limit")
        for v in (xs, *map(float, xs)):
            w = np.array([fam.above(x) for x in np.ravel(v)])
            t.close(np.ravel(gen.lum_function_int(v, **p)), w, f"{what}: number above {v}", rtol=3e-6 if not fam.table else 1e-9, atol=total * (slack if fam.table else 1e-9))
        # the inverse
        q = np.array(case["q"])
        x = np.asarray(ppf(q), float)
        t.check(np.all(x >= fam.xmin * (1 - 1e-9)) and np.all(np.isfinite(x)), f"{what}: {q} of the objects lie below {x}, lower limit {fam.xmin}")
        back = np.array([1 - fam.above(v) / total for v in x])
        t.close(back, q, f"{what}: fraction below {x}", atol=2 * slack if fam.table else 1e-4 * max(peak, 1) + 1e-6, rtol=0)
        t.close([float(ppf(float(v))) for v in q], x, f"{what}: inverse of the numbers {q}", rtol=1e-12)
        mid = (got > 1e-3) & (got < .999) & (dens * xs > 1e-2 * peak)
        if np.any(mid):
            t.close(np.asarray(ppf(got[mid]), float), xs[mid], f"{what}: inverse of the fraction below {xs[mid]}", rtol=3 * BIN * (1 if fam.table else .2))
        t.check(float(cdf(fam.xmin)) < slack + 1e-9 and float(cdf(1e30 * fam.xmin)) > 1 - 1e-9, f"{what}: fraction below the lower limit {cdf(fam.xmin)}, below infinity {cdf(1e30 * fam.xmin)}")
        if case["draws"]:
            state = np.random.get_state()[1].tolist()
            n = 400
            a = gen.rvs(**p, size=n, random_state=np.random.default_rng([case["seed"], 5]))
            t.check(np.array_equal(a, gen.rvs(**p, size=n, random_state=np.random.default_rng([case["seed"], 5]))), f"{what}: equal seeds give other values")
            t.check(np.random.get_state()[1].tolist() == state, f"{what}: the global random state was used")
            t.check(np.all(a >= fam.xmin * (1 - 1e-9)), f"{what}: random value {a.min()} below the lower limit {fam.xmin}")
            g = np.array([cdf(v) for v in np.sort(a)[::10]])
            dev = np.max(np.abs(g - np.arange(0, n, 10) / n))
            t.check(dev < 3.3 / n**.5 + slack + 1 / n, f"{what}: random values are not distributed as the cumulative function says, {dev:.3f}")
    t.label(case["family"])
    t.nontrivial(total > 0 and len(up) > 0)


@st.composite
def slopes(draw):
    return {"double": draw(st.booleans()), "a": [draw(SLOPE) for _ in range(draw(st.integers(2, 6)))], "b": [draw(SLOPE) for _ in range(6)], "u": [draw(st.integers(-60, 6)) / 10 for _ in range(6)], "shape": draw(st.sampled_from(["number", "array"])), "x0": 10.0**draw(st.integers(-1, 11)), "min": draw(st.integers(-60, -10)) / 10, "arrays": draw(st.booleans())}


def slope(case, t):
    """Many parameter sets at once: each as on its own."""
    from simim.galprops import galprops_am as A
    n = len(case["a"])
    a, b = np.array(case["a"]), np.array(case["b"][:n])
    x0, xmin = case["x0"], case["x0"] * 10**case["min"]
    x = x0 * 10**np.array(case["u"][:n])
    x = float(x[0]) if case["shape"] == "number" else x
    gen = A.double_schechter_gen() if case["double"] else A.schechter_gen()
    phi, phi2 = np.linspace(1, 2, n) * 1e-3, np.linspace(3, 1, n) * 1e-4
    p = {"x0": x0, "xmin": xmin}
    if case["arrays"]:
        p["x0"] = np.full(n, x0)
    p.update({"alpha1": a, "phi1": phi, "alpha2": b, "phi2": phi2} if case["double"] else {"alpha": a, "phi0": phi})
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got = gen.lum_function_int(x, **p)
        t.check(np.shape(got) == (n,), f"shape {np.shape(got)} for {n} parameter sets")
        for j in range(n):
            q = {"x0": x0, "xmin": xmin, **({"alpha1": a[j], "phi1": phi[j], "alpha2": b[j], "phi2": phi2[j]} if case["double"] else {"alpha": a[j], "phi0": phi[j]})}
            xj = float(np.broadcast_to(x, (n,))[j])
            want = Family("double_schechter_gen" if case["double"] else "schechter_gen", q).above(xj)
            t.close(float(got[j]), want, f"number above {xj} for {q} among slopes {a.tolist(), b.tolist()}", rtol=1e-5)
    t.label("double" if case["double"] else "single", case["shape"])
    t.nontrivial(np.any(a < -1) and np.any(a > -1))


@st.composite
def invalid(draw):
    f = draw(families())
    key = draw(st.sampled_from([k for k in f["p"] if k in ("x0", "xmin", "sigma") or k.startswith("phi")]))
    return {**f, "key": key, "value": draw(st.sampled_from([-1.0, -1e9, 0.0]))}


def refuse(case, t):
    p = dict(case["p"])
    p[case["key"]] = case["value"]
    if case["key"].startswith("phi"):
        if case["family"] not in ("schechter_gen", "double_schechter_gen") or case["value"] == 0:
            return  # only the first two families look at the normalisation
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        gen = make(case, t)
        for m in ("cdf", "pdf", "ppf"):
            try:
                v = getattr(gen, m)(.5, **p)
            except ValueError:
                continue
            t.check(np.all(np.isnan(v)), f"{case['family']}.{m} gives {v} for {p}")
    t.nontrivial(True)


CHECKS = [Check("agree", points(), agree, quick=9000, thorough=25000), Check("slope", slopes(), slope, quick=4000, thorough=10000), Check("refuse", invalid(), refuse, quick=600, thorough=600)]
