"""P31: abundance matching, by rank and number density."""
import glob
import os
import shutil
import warnings
import numpy as np
from scipy import stats
from vlib.hyp import st
from vlib.core import Check
from vlib import hand
from vlib.grids import SEED
from props.p28 import SMF
from props.p30 import Family, families, BIN

hand.STORED.setdefault("vmax", ("f8", "km/s", 0))
EXTRAP = st.sampled_from([None, None, "nan", "none", "flat", -7.5, 0])


class Dist:
    """A distribution with its own, separately computed cumulative function."""

    def __init__(self, spec, t):
        k = spec["kind"]
        if k == "package":
            from simim.galprops import galprops_am as A
            self.rv = getattr(A, spec["family"])()(**spec["p"])
            fam = Family(spec["family"], spec["p"])
            tot = fam.above(fam.xmin)
            self.cdf = np.vectorize(lambda x: 0.0 if x <= fam.xmin else 1 - fam.above(x) / tot if np.isfinite(x) else 1.0, otypes=[float])
            self.slack = 3 * BIN * fam.peak() + 1e-3
            self.inside = (fam.xmin, fam.xmin * 1e6)
        else:
            s, a = 10.0**spec["scale"], spec["a"]
            rv = {"lognorm": lambda: stats.lognorm(.3 + a, scale=s), "uniform": lambda: stats.uniform(s * (a - .3), s), "expon": lambda: stats.expon(0, s), "pareto": lambda: stats.pareto(.8 + a, scale=s)}[k]()
            self.rv, self.cdf, self.slack = rv, rv.cdf, 1e-7
            self.inside = tuple(rv.ppf([1e-6, 1 - 1e-6]))


@st.composite
def dists(draw):
    if draw(st.integers(0, 2)) == 0:
        return {"kind": "package", **draw(families())}
    return {"kind": draw(st.sampled_from(["lognorm", "uniform", "expon", "pareto"])), "scale": draw(st.integers(-2, 9)), "a": draw(st.sampled_from([.3, .7, 1.5]))}


@st.composite
def matches(draw):
    def limits():
        lo, hi = draw(st.sampled_from([(None, None), (None, None), (.1, None), (None, .8), (.05, .9)]))
        return [lo, hi]
    return {"catalog": draw(st.booleans()), "n": draw(st.integers(3, 60)), "seed": draw(SEED), "ties": draw(st.booleans()), "d1": draw(dists()), "d2": draw(dists()), "lim1": limits(), "lim2": limits(),
            "miss": [draw(st.sampled_from([0.0, 0.0, .1, .3])) for _ in range(4)], "extrap": [draw(EXTRAP) for _ in range(4)], "reverse": draw(st.booleans()), "u": [draw(st.integers(-50, 1050)) / 1000 for _ in range(draw(st.integers(2, 8)))], "bad": draw(st.sampled_from([None] * 12 + ["miss", "sum", "neg", "word"]))}


def edge(x, lim):
    x = np.where((x < lim[0]) & (x > lim[0] * (1 - .015)), lim[0], x)
    return np.where((x > lim[1]) & (x < lim[1] * (1 + .015)), lim[1], x)


def match(case, t):
    from simim.galprops.galprops_am import am_dfcat, am_dfdf
    d1, d2 = Dist(case["d1"], t), Dist(case["d2"], t)
    kw = {"reverseorder": True} if case["reverse"] else {}
    names = ["missing_pmass_low_p1", "missing_pmass_high_p1", "missing_pmass_low_p2", "missing_pmass_high_p2"]
    kw.update({k: v for k, v in zip(names, case["miss"]) if v})
    low1, high1, low2, high2 = case["miss"]
    enames = ["extrapolate_low_p1", "extrapolate_high_p1", "extrapolate_low_p2", "extrapolate_high_p2"]
    kw.update({k: v for k, v in zip(enames, case["extrap"]) if v is not None})
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        r = np.random.default_rng([case["seed"], 3])
        cat = d1.rv.ppf(r.uniform(.001, .999, case["n"]))
        if case["ties"]:
            cat = np.concatenate([cat, cat[: len(cat) // 2]])
        n = len(cat)

        def limit(d, pair):
            return [0.0 if pair[0] is None else float(d.rv.ppf(pair[0])), np.inf if pair[1] is None else float(d.rv.ppf(pair[1]))]
        lim2 = limit(d2, case["lim2"])
        lim1 = limit(d1, case["lim1"])
        for nm, v, pair in (("prop2_min", lim2[0], case["lim2"][0]), ("prop2_max", lim2[1], case["lim2"][1])):
            if pair is not None:
                kw[nm] = v
        if not case["catalog"]:
            for nm, v, pair in (("prop1_min", lim1[0], case["lim1"][0]), ("prop1_max", lim1[1], case["lim1"][1])):
                if pair is not None:
                    kw[nm] = v
        first = cat if case["catalog"] else d1.rv
        fn = am_dfcat if case["catalog"] else am_dfdf
        if case["bad"]:
            kw.update({"miss": {names[0]: 1.2}, "sum": {names[2]: .6, names[3]: .5}, "neg": {names[1]: -.1}, "word": {enames[1]: "straight"}}[case["bad"]])
            t.raises(lambda: fn(first, d2.rv, **kw), f"{kw}", ValueError)
            t.label("refused")
            return
        keep = cat.copy()
        p2ofp1, p1ofp2 = fn(first, d2.rv, **kw)
        t.check(np.array_equal(keep, cat), "the catalog was changed")

        def rank(d, lim, lo, hi):
            a, b = d.cdf(lim[0]), d.cdf(lim[1])
            return lambda x: np.where(x < lim[0], 0.0, np.where(x > lim[1], 1.0, lo + (d.cdf(x) - a) / (b - a) * (1 - lo - hi)))
        c2 = rank(d2, lim2, low2, high2)
        a2 = d2.slack / float(d2.cdf(lim2[1]) - d2.cdf(lim2[0]))
        ends1 = [float(cat.min()), float(cat.max())] if case["catalog"] else lim1
        fill = [np.nan if e in (None, "nan", "none") else f if e == "flat" else float(e) for e, f in zip(case["extrap"], ends1 + lim2)]
        if case["catalog"]:
            s = np.sort(cat)
            x1 = np.concatenate([r.choice(s, 4), s[0] + (s[-1] - s[0]) * np.clip(case["u"], 0, 1), [s[0] * .5 - 1, s[-1] * 2 + 1]])
            below, upto = np.searchsorted(s, x1, "left"), np.searchsorted(s, x1, "right")
            lo1 = np.where(x1 < s[0], 0, low1 + (1 - low1 - high1) * np.clip((below - 1) / n, 0, 1))
            hi1 = np.where(x1 > s[-1], 1, low1 + (1 - low1 - high1) * np.clip((upto + 1) / n, 0, 1))
            lo1, hi1 = np.where(x1 > s[-1], 1, lo1), np.where(x1 < s[0], 0, hi1)
            # a catalog's ends have the rank of everything or nothing below them
            atend = (x1 <= s[0]) | (x1 >= s[-1])
            a1 = 1.0 / n
        else:
            u = np.array(case["u"])
            x1 = np.where(u <= 0, d1.inside[0] * .5 + u, np.where(u >= 1, d1.inside[1] * 2, d1.rv.ppf(np.clip(u, 1e-4, 1 - 1e-4))))
            c1 = rank(d1, lim1, low1, high1)
            a1 = d1.slack / float(d1.cdf(lim1[1]) - d1.cdf(lim1[0]))
            lo1, hi1 = c1(x1) - a1, c1(x1) + a1
            atend = (c1(x1) <= 1e-9) | (c1(x1) >= 1 - 1e-9) | (x1 <= lim1[0]) | (x1 >= lim1[1])
            lo1, hi1 = np.where(x1 < lim1[0], 0, np.where(x1 > lim1[1], 1, lo1)), np.where(x1 < lim1[0], 0, np.where(x1 > lim1[1], 1, hi1))
        if case["reverse"]:
            lo1, hi1 = 1 - hi1, 1 - lo1
        got = np.asarray(p2ofp1(x1), float)
        what = f"{'catalog' if case['catalog'] else case['d1']} of {n} to {case['d2']} with {kw}"
        t.check(got.shape == x1.shape, f"{what}: shape {got.shape}")
        eps = 1e-9
        inlow, inhigh = hi1 < low2 - eps, lo1 > 1 - high2 + eps
        solid = ~atend & (lo1 > low2 + eps) & (hi1 < 1 - high2 - eps)
        for sel, f, w in ((inlow, fill[2], "below"), (inhigh, fill[3], "above")):
            t.check(np.all(np.isnan(got[sel])) if np.isnan(f) else np.all(got[sel] == f), f"{what}: {got[sel]} for {x1[sel]}, which are {w} what can be matched ({f} expected)")
        # the tabulated inverse is good to a cell: step back inside the limits by that much
        back = c2(edge(got, lim2))
        ok = (back >= lo1 - 2 * a2 - 1e-6) & (back <= hi1 + 2 * a2 + 1e-6)
        t.check(np.all(ok[solid]), f"{what}: {got[solid & ~ok]} given to {x1[solid & ~ok]}: fraction below it {back[solid & ~ok]}, of the first property {lo1[solid & ~ok]} to {hi1[solid & ~ok]}")
        o = np.argsort(x1[solid])
        d = np.diff(got[solid][o]) * (-1 if case["reverse"] else 1)
        t.check(np.all(d >= -1e-9 * np.abs(got[solid][o][1:])), f"{what}: {got[solid][o]} is not monotonic over {x1[solid][o]}")
        for j in np.nonzero(solid | inlow | inhigh)[0]:
            t.close(float(p2ofp1(float(x1[j]))), got[j], f"{what}: value of the number {x1[j]}", rtol=1e-9)
        # and the other way
        u2 = np.clip(case["u"], .01, .99)
        x2 = d2.rv.ppf(u2)
        x2 = x2[(x2 > lim2[0]) & (x2 < lim2[1])]
        r2 = c2(x2)
        lo2, hi2 = (1 - r2 - a2, 1 - r2 + a2) if case["reverse"] else (r2 - a2, r2 + a2)
        inv = np.asarray(p1ofp2(x2), float)
        inlow, inhigh = hi2 < low1 - eps, lo2 > 1 - high1 + eps
        for sel, f, w in ((inlow, fill[0], "below"), (inhigh, fill[1], "above")):
            t.check(np.all(np.isnan(inv[sel])) if np.isnan(f) else np.all(inv[sel] == f), f"{what}: inverse {inv[sel]} for {x2[sel]}, which are {w} what can be matched ({f} expected)")
        mid = (lo2 > low1 + eps) & (hi2 < 1 - high1 - eps)
        if case["catalog"]:
            frac = (np.searchsorted(s, inv, "left") - 1) / n, (np.searchsorted(s, inv, "right") + 1) / n
            ra, rb = low1 + (1 - low1 - high1) * frac[0], low1 + (1 - low1 - high1) * frac[1]
        else:
            ra = rb = c1(edge(inv, lim1))
            ra, rb = ra - 2 * a1 - 1e-6, rb + 2 * a1 + 1e-6
        ok = (rb >= lo2 - eps) & (ra <= hi2 + eps)
        t.check(np.all(ok[mid]), f"{what}: inverse {inv[mid & ~ok]} given to {x2[mid & ~ok]}: fraction below it {ra[mid & ~ok]} to {rb[mid & ~ok]}, of the second property {lo2[mid & ~ok]} to {hi2[mid & ~ok]}")
        for j in np.nonzero(mid)[0]:
            t.close(float(p1ofp2(float(x2[j]))), inv[j], f"{what}: inverse of the number {x2[j]}", rtol=1e-9)
    t.label("catalog" if case["catalog"] else "distributions", "reverse" if case["reverse"] else "direct")
    t.nontrivial(np.sum(solid) > 1)


@st.composite
def tables(draw):
    k = draw(st.integers(2, 3))
    return {"model": draw(st.sampled_from(["g13", "g13", "b17"])), "h": draw(st.sampled_from([.5, .7, 1.0])), "om": draw(st.sampled_from([.25, .3])), "box": draw(st.sampled_from([6.0, 12.0, 30.0, 80.0])), "first": draw(st.sampled_from([0, 0, 4])),
            "z": draw(st.lists(st.integers(0, 60), min_size=k, max_size=k, unique=True)), "n": [draw(st.integers(20, 250)) for _ in range(k)], "seed": draw(SEED), "vmax": draw(st.booleans()), "prop": draw(st.sampled_from([None, "auto", "mass", "vmax", "vmin"])),
            "mmin": draw(st.sampled_from([None, 2e10, 3e11])), "lmin": draw(st.sampled_from([None, 10**7.5, 1e9])), "lf": draw(st.sampled_from([{}, {}, {"lf_lstar0": 10**9.5}, {"lf_alpha0": 1.4, "lf_phistar0": 10**-3}])), "conv": draw(st.sampled_from([None, 2e-10])), "faint": draw(st.sampled_from([None, None, 0, 1, 2]))}


def table(case, t):
    from simim._paths import _SimIMPaths
    if case["model"] == "g13":
        from simim.galprops.sfr_ir import g13irlf_base as cls
    else:
        from simim.galprops.sfr_bethermin17 import bethermin17_base as cls
    h, box = case["h"], case["box"]
    cosmo = hand.cosmology(h, case["om"])
    z = sorted(k / 10 for k in case["z"])[::-1]
    idx = [case["first"] + i for i in range(len(z))]
    r = np.random.default_rng([case["seed"], 9])
    names = ["mass", "pos_x", "pos_y", "pos_z"] + (["vmax"] if case["vmax"] else [])
    cats = {}
    faint = case.get("faint")
    for i, n in zip(idx, case["n"]):
        c = hand.catalog(case["seed"], n, ["mass", "pos_x", "pos_y", "pos_z"])
        m = np.sort(10**r.uniform(9.8, 13.5, n))[::-1]
        if faint is not None and i == idx[0] + faint:  # no halo is massive enough to be matched
            m = 10**r.uniform(8.5, 9.9, n)
        c["mass"] = m * h  # stored in Msun/h
        if case["vmax"]:
            c["vmax"] = 40 * (m / 1e10)**.33 * r.uniform(.95, 1.3, n)
        cats[i] = {k: c[k] for k in names}
    paths = _SimIMPaths()
    root = paths.root
    folder = os.path.join(root, "p31box")
    shutil.rmtree(folder, ignore_errors=True)
    hand.write_sim(folder, h, case["om"], .05, box, hand.snap_table(cosmo, idx, z), cats)
    hand.register(folder)
    for key in ("g13__testbox", "b17__testbox"):
        if key in paths.props:
            for f in glob.glob(os.path.join(paths.props[key], "*.npy")):
                os.remove(f)
    g13 = case["model"] == "g13"
    p = "" if g13 else "sm_"
    kw = {}
    if case["prop"]:
        kw[p + "haloprop"] = case["prop"]
    if case["mmin"]:
        kw[p + "halomassmin"] = case["mmin"]
    if g13 and case["lmin"]:
        kw["lirmin"] = case["lmin"]
    lf = case["lf"] if g13 else {}
    if g13 and case["conv"]:
        kw["lir_to_sfr"] = case["conv"]
    mmin, lmin = case["mmin"] or 1e10, case["lmin"] or 10**8.5
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        prop = case["prop"] or "auto"
        if prop == "vmin":
            t.raises(lambda: cls("_testbox", **{p + "comp": True}, **kw, **lf), "a property that cannot be matched", ValueError)
            return
        if prop == "auto":
            prop = "vmax" if case["vmax"] else "mass"
        if prop == "vmax" and not case["vmax"]:
            return
        a = cls("_testbox", **{p + "comp": True}, **kw, **lf)
        value = (lambda m: m.lir) if g13 else (lambda m: m.stellarmass)
        any_solid = 0
        rows = []
        snaps = []
        for i, zi in zip(idx, z):
            mass = cats[i]["mass"] / h
            v = (cats[i]["vmax"] if prop == "vmax" else mass)[mass >= mmin]
            n, vol = len(v), (box / h)**3
            if g13:
                lp = {"alpha0": 1.2, "sigma0": .5, "lstar0": 10**9.95, "phistar0": 10**-2.25, **{k[3:]: q for k, q in lf.items()}}
                star = lp["lstar0"] * ((1 + zi)**3.55 if zi < 2 else 3**3.55 * ((1 + zi) / 3)**1.62)
                phi = lp["phistar0"] * ((1 + zi)**-.57 if zi < 1.1 else 2.1**-.57 * ((1 + zi) / 2.1)**-3.92)
                fam = Family("modified_schechter_gen", {"phi0": phi, "x0": star, "alpha": lp["alpha0"], "sigma": lp["sigma0"], "xmin": lmin})
            else:
                from astropy.cosmology import FlatLambdaCDM
                ob, s = FlatLambdaCDM(H0=70, Om0=.3), np.array(SMF)
                mid = (s[:, 0] + s[:, 1]) / 2
                dv = ob.differential_comoving_volume(mid).value / cosmo.differential_comoving_volume(mid).value
                dl = (cosmo.luminosity_distance(mid).value / ob.luminosity_distance(mid).value)**2
                fam = Family("double_schechter_gen", {"x0": 10**np.interp(zi, mid, np.log10(s[:, 2] * dl)), "alpha1": np.interp(zi, mid, s[:, 3]), "phi1": np.interp(zi, mid, s[:, 4] * dv), "alpha2": np.interp(zi, mid, s[:, 5]), "phi2": 10**np.interp(zi, mid, np.log10(s[:, 6] * dv)), "xmin": 1e5})
            total = fam.above(fam.xmin) * vol
            slack = total * (3 * BIN * fam.peak() if g13 else 1e-3 * fam.peak()) + 2.0 + max(total, n) * 1e-3
            snaps.append((i, zi, v, n, vol, fam, total, slack))

        def certain(k, lo, hi):
            _, _, v, n, _, _, total, slack = snaps[k]
            return n > 1 and lo > v.min() and hi < v.max() and np.sum(v >= lo) < total - slack
        for k, (i, zi, v, n, vol, fam, total, slack) in enumerate(snaps):
            near = [j for j in (k - 1, k + 1) if 0 <= j < len(snaps)]
            if n == 0:
                m = 10**r.uniform(10, 13.5, 6)
                got = np.asarray(value(a)(40 * (m / 1e10)**.33 if prop == "vmax" else m, np.full(6, zi)), float)
                t.check(np.all(np.isnan(got) | (got == 0)), f"{case['model']}: {got} at redshift {zi}, where no halo is matched")
                t.label("no halo")
                continue
            q = np.sort(r.choice(v, min(8, n))) if n else np.zeros(0)
            q = np.concatenate([q, np.sqrt(q[:-1] * q[1:])]) if len(q) > 1 else q
            lo, hi = (q - 1.01, q + 1.01) if prop == "vmax" else (q / 1.006, q * 1.006)
            inside = (lo > v.min()) & (hi < v.max()) if n else np.zeros(0, bool)
            q, lo, hi = q[inside], lo[inside], hi[inside]
            above = np.array([[np.sum(v > b), np.sum(v >= a_)] for a_, b in zip(lo, hi)]).reshape(-1, 2)
            got = np.array([float(value(a)(float(x), zi)) for x in q])
            arr = np.asarray(value(a)(q, np.full(len(q), zi)), float) if len(q) else got
            t.close(arr, got, f"{case['model']}: values of {q} together and one by one at redshift {zi}", rtol=1e-12)
            for x, a_, b_, (na, nb), L in zip(q, lo, hi, above, got):
                if np.isnan(L) and not all(certain(j, a_, b_) for j in near):
                    continue  # interpolating with an unmatched neighbour
                # rank counts the catalog's n objects over the total the volume should hold
                if na > total + slack:
                    t.check(np.isnan(L), f"{case['model']}: {L} for {prop} {x}, with {na} halos above, though only {total:.1f} objects exist (redshift {zi})")
                elif nb < total - slack:
                    N = fam.above(L) * vol if np.isfinite(L) else np.nan
                    t.check(na - slack <= N <= nb + slack, f"{case['model']}: {L:.4g} for {prop} {x:.5g} at redshift {zi}: {N:.2f} objects brighter, {na} to {nb} halos above (slack {slack:.2f}, {n} halos, {total:.1f} objects)")
                    any_solid += 1
                    rows.append((x, zi, L))
            ok = np.isfinite(got)
            o = np.argsort(q[ok])
            t.check(np.all(np.diff(got[ok][o]) >= -1e-9 * got[ok][o][1:]), f"{case['model']}: {got[ok][o]} not monotonic over {q[ok][o]} at redshift {zi}")
        if rows:
            x, zi, L = rows[len(rows) // 2]
            if g13:
                conv = case["conv"] or 1e-10
                t.close(float(a.sfr(x, zi)), L * conv, "star-formation rate from luminosity", rtol=1e-12)
                t.close(float(a.sfr(x, zi, lir_to_sfr=3e-10)), L * 3e-10, "star-formation rate with its own conversion", rtol=1e-12)
            for z1, z2 in zip(z[:-1], z[1:]):
                e = [float(value(a)(x, q)) for q in (z1, z2)]
                v = float(value(a)(x, .5 * (z1 + z2)))
                if np.all(np.isfinite(e)):
                    t.check(min(e) * (1 - 1e-9) <= v <= max(e) * (1 + 1e-9), f"{v} between redshifts {z1} and {z2}, where it is {e}")
            # tables are kept, reused and remade
            again = cls("_testbox")
            t.close(float(value(again)(x, zi)), L, "value from the kept table", rtol=1e-12)
            if g13:
                same = cls("_testbox", comp=True, lf_lstar0=1e12, **{k: v for k, v in kw.items()})
                t.close(float(same.lir(x, zi)), L, "value from the kept table though computing was allowed", rtol=1e-12)
                new = cls("_testbox", remake=True, lf_phistar0=10**-1.5, lf_lstar0=1e11, **{k: v for k, v in kw.items()})
                t.check(not np.isclose(float(new.lir(x, zi)), L), f"the table was not remade: {L}")
    t.label(case["model"], prop)
    t.nontrivial(any_solid > 1)


def ends(t):
    """The largest object of a catalog is given the smallest value."""
    from simim.galprops.galprops_am import am_dfcat
    cat = np.arange(1.0, 11.0)
    p2ofp1, _ = am_dfcat(cat, stats.lognorm(.5))
    v = p2ofp1(cat)
    t.check(np.isfinite(v[-1]) and v[-1] >= v[-2], f"the largest of ten objects is given {v[-1]}, the second largest {v[-2]}")


FINDINGS = {"P31-ends": ends}
CHECKS = [Check("match", matches(), match, quick=2000, thorough=12000), Check("table", tables(), table, quick=300, thorough=2000)]
