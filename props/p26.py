"""P26: statistics over redshift bins, volumes and iterators of light cones."""
import os
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, sizes
from vlib import hand

AREA = {"sphere": 4 * np.pi, "hemisphere": 2 * np.pi, "quarter": np.pi, "eighth": np.pi / 2}
NAMES = ["mass", "pos_x", "vel", "tag", "vol", "rate"]
DT = {k: hand.STORED[k][2] for k in NAMES}


@st.composite
def cones_(draw, spheres=True):
    zmin = draw(st.sampled_from([0.0, 0.0, 0.25, 1.0]))
    zmax = zmin + draw(st.sampled_from([0.0625, 0.5, 2.0]))
    shape = draw(st.sampled_from(["box", "box", "circle"] + (list(AREA) if spheres else [])))
    return {"h": draw(st.sampled_from(hand.HS)), "om": draw(st.sampled_from([0.2, 0.3, 1.0])), "zmin": zmin, "zmax": zmax, "shape": shape, "angle": draw(st.sampled_from([0.01, 0.05, 0.3])),
            "aspect": draw(st.sampled_from([1, 1, 0.5, 0.1])) if shape in ("box", "circle") else 1, "n": draw(sizes(st.integers(0, 12))), "seed": draw(SEED), "ties": draw(st.booleans())}


def write(case, t, name="lc", number=0, sim="_testbox"):
    """Redshifts are odd multiples of 1/64 of the range: bins made of even
    multiples never touch them."""
    cat = hand.catalog(case["seed"], case["n"], NAMES, ties=case["ties"])
    r = np.random.default_rng(case["seed"] + 1)
    cat["redshift"] = case["zmin"] + (case["zmax"] - case["zmin"]) * (2 * r.integers(0, 32, case["n"]) + 1) / 64.0
    root = os.path.join(t.scratch, "cones")
    sph = case["shape"] in AREA
    hand.write_lc(root, name, number, case["h"], case["om"], 0.05, case["shape"], case["zmin"], case["zmax"], cat, None if sph else case["angle"], None if sph else case["aspect"], sim=sim)
    hand.register_lc(root, sim)
    return cat


def shell(case, z0, z1, area, in_h):
    """Flat universe: a third of the difference of the cubed distances."""
    c = hand.cosmology(case["h"], case["om"])
    d = c.comoving_distance(np.array([z0, z1])).value
    return (d[1]**3 - d[0]**3) / 3 * area * (case["h"]**3 if in_h else 1)


def area(case):
    s = case["shape"]
    return AREA[s] if s in AREA else np.pi * (case["angle"] / 2)**2 if s == "circle" else case["angle"]**2 * case["aspect"]


def conv(cat, k, h, in_h):
    v = cat[k]
    p = DT.get(k, 0)
    return v if in_h or p == 0 else v * h**p


@st.composite
def evo_cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["evo", "evo", "evo", "range", "range", "reset", "eval"]))
        if k == "range":
            ops.append(["range", draw(st.sampled_from(["mass", "tag", "redshift"])), draw(st.floats(0, 1)), draw(st.floats(0, 1)), draw(st.booleans())])
        elif k == "reset":
            ops.append(["reset"])
        elif k == "eval":
            ops.append(["eval", draw(st.booleans())])
        else:
            lo = draw(st.integers(0, 32))
            bins = [draw(st.integers(0, 32)) for _ in range(draw(st.integers(1, 5)))] + [lo]
            ops.append(["evo", bins, draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)), draw(st.booleans()), draw(st.sampled_from([None, True, False])), draw(st.booleans()), draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([None, None, {}, {"extra": 3}, {"extra": 5, "zmin": -1}, {"volume": 7}])), draw(st.sampled_from(["array", "list"]))])
    return {"lc": draw(cones_()), "in_h": draw(st.booleans()), "ops": ops}


def state(h):
    return [np.array(h.inds_active).tolist(), int(h.nhalos_active), np.array(h.return_property("tag")).tolist()]


def evo(case, t):
    from simim.lightcone.lchandler import LCHandler
    lc = case["lc"]
    interesting = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cat = write(lc, t)
        h = LCHandler("_testbox", "lc", 0, in_h_units=case["in_h"])
        mask = np.ones(lc["n"], bool)
        for op in case["ops"]:
            if op[0] == "range":
                key, a, b, reset = op[1:]
                v = conv(cat, key, lc["h"], case["in_h"]).astype(float)
                lo, hi = sorted([a, b])
                top = float(np.max(v)) if len(v) else 1.0
                lo, hi = lo * top + top * 1e-7, hi * top + top * 1.3e-7
                h.set_property_range(key, lo, hi, reset=reset)
                new = (v >= lo) & (v <= hi)
                mask = new if reset else new & mask
            elif op[0] == "reset":
                h.set_property_range()
                mask = np.ones(lc["n"], bool)
            elif op[0] == "eval":
                got = h.eval_stat(lambda tag: np.sum(tag), ["tag"], use_all_inds=op[1])
                t.equal(int(got), int(np.sum(cat["tag"][np.ones(lc["n"], bool) if op[1] else mask])), "sum over the selection")
            else:
                _, bins, names, remap, in_h, zmin, zmax, vol, other, form = op
                z = [lc["zmin"] + (lc["zmax"] - lc["zmin"]) * b / 32.0 for b in bins]
                calls = []

                def stat(**kw):
                    calls.append(kw)
                    return len(calls)
                kwargs = [f"arg{i}" for i in range(len(names))] if remap else list(names)
                kr = {f"arg{i}": n for i, n in enumerate(names)} if remap else {}
                k = {}
                if remap:
                    k["kw_remap"] = kr
                if other is not None:
                    k["other_kws"] = dict(other)
                if in_h is not None:
                    k["give_args_in_h_units"] = in_h
                for nm, on in (("zmin_kw", zmin), ("zmax_kw", zmax), ("volume_kw", vol)):
                    if on:
                        k[nm] = True
                z_in = np.array(z) if form == "array" else list(z)
                before = state(h)
                rb, vals = h.eval_stat_evo(z_in, stat, kwargs, **k)
                what = f"bins {sorted(z)} of {op}"
                t.close(rb, np.sort(z), f"{what}: bins returned", rtol=0, atol=0)
                t.check(list(z_in) == z, f"{what}: the caller's bins changed")
                t.check(len(calls) == len(z) - 1 and list(vals) == list(range(1, len(z))), f"{what}: {len(calls)} evaluations, returned {vals}")
                t.check(other is None or k["other_kws"] == other, f"{what}: the caller's other_kws became {k.get('other_kws')}, was {other}")
                use = case["in_h"] if in_h is None else in_h
                zs = np.sort(z)
                for i, kw in enumerate(calls):
                    sel = (cat["redshift"] > zs[i]) & (cat["redshift"] < zs[i + 1])
                    want = dict(other or {})
                    if zmin:
                        want["zmin"] = zs[i]
                    if zmax:
                        want["zmax"] = zs[i + 1]
                    if vol:
                        want["volume"] = shell(lc, zs[i], zs[i + 1], area(lc), use)
                    t.check(set(kw) == set(want) | set(kwargs), f"{what}: bin {i} called with {sorted(kw)}, expected {sorted(set(want) | set(kwargs))}")
                    for nm in want:
                        t.close(float(kw[nm]), float(want[nm]), f"{what}: bin {i}: {nm}", rtol=1e-9, atol=1e-9 * area(lc) * 1e9 if nm == "volume" and want[nm] == 0 else 0)
                    for nm, src in zip(kwargs, names):
                        t.close(kw[nm], conv(cat, src, lc["h"], use)[sel], f"{what}: bin {i}: {src} given to the statistic", rtol=1e-6 if src in ("pos_x", "rate") else 1e-12)
                    interesting += bool(sel.any()) and not sel.all()
                t.check(state(h) == before, f"{what}: the selection afterwards is {state(h)}, before {before}")
            want = [np.nonzero(mask)[0].tolist(), int(mask.sum()), cat["tag"][mask].tolist()]
            t.check(state(h) == want, f"after {op[:2]}: selection {state(h)}, expected {want}")
    t.label(lc["shape"], *[o[0] for o in case["ops"]])
    t.nontrivial(interesting > 0)


@st.composite
def volume_cases(draw):
    q = []
    for _ in range(draw(st.integers(1, 6))):
        q.append([draw(st.sampled_from([None, None, 0.0, 0.25, 0.5, -0.1, 1.1])), draw(st.sampled_from([None, None, 1.0, 0.75, 0.5, 1.1])), draw(st.sampled_from([None, None, "box", "circle", "hexagon"])),
                  draw(st.sampled_from([None, None, 1.0, 0.99, 0.7, 0.72, 0.5, 0.3, 0.05, 1.01, 1.3])), draw(st.sampled_from([None, None, 1, 0.5, 0.1])), draw(st.sampled_from([None, True, False]))])
    return {"lc": draw(cones_()), "in_h": draw(st.booleans()), "q": q}


def volume(case, t):
    from simim.lightcone.lchandler import LCHandler
    lc = case["lc"]
    good = bad = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        write(dict(lc, n=2), t)
        h = LCHandler("_testbox", "lc", 0, in_h_units=case["in_h"])
        for a, b, shape, angle, aspect, in_h in case["q"]:
            k = {}
            span = lc["zmax"] - lc["zmin"]
            z0 = lc["zmin"] if a is None else lc["zmin"] + a * span
            z1 = lc["zmax"] if b is None else lc["zmin"] + b * span
            if z0 > z1:
                continue
            if a is not None:
                k["redshift_min"] = z0
            if b is not None:
                k["redshift_max"] = z1
            use = case["in_h"] if in_h is None else in_h
            if in_h is not None:
                k["in_h_units"] = in_h
            if lc["shape"] in AREA:
                # only the sphere's own part of the sky is defined
                ok, ar = True, AREA[lc["shape"]]
            else:
                if shape is not None:
                    k["shape"] = shape
                s = shape or lc["shape"]
                # an angle is asked for as a multiple of the cone's own
                an = lc["angle"] if angle is None else lc["angle"] * angle
                asp = lc["aspect"] if aspect is None else aspect
                if angle is not None:
                    k["open_angle"] = an
                if aspect is not None and s == "box":
                    k["aspect_ratio"] = aspect
                elif s == "circle":
                    asp = 1
                A, B = lc["angle"], lc["angle"] * (lc["aspect"] if lc["shape"] == "box" else 1)
                tol = 1e-9 * A
                if s == "hexagon":
                    ok = False
                elif s == "box":
                    m = an - A, an * asp - B
                    if lc["shape"] == "circle":
                        m = (np.hypot(an, an * asp) - A,)
                    ok = max(m) <= tol
                    edge = abs(max(m)) < tol
                else:
                    m = an - min(A, B)
                    ok = m <= tol
                ar = an * an * asp if s == "box" else np.pi * (an / 2)**2
                if s == "box" and lc["shape"] == "circle" and edge:
                    continue
            ok = ok and z0 >= lc["zmin"] and z1 <= lc["zmax"]
            what = f"volume({k}) of a {lc['shape']} cone of {lc['angle']} rad x {lc['aspect']}, z {lc['zmin']}-{lc['zmax']}"
            if ok:
                want = shell(lc, z0, z1, ar, use)
                t.close(float(h.volume(**k)), want, what, rtol=1e-9, atol=1e-3 * ar if z0 == z1 else 0)
                good += 1
            else:
                t.raises(lambda: h.volume(**k), what, ValueError)
                bad += 1
    t.label(lc["shape"], *(["accepted"] if good else []), *(["refused"] if bad else []))
    t.nontrivial(good and lc["h"] != 1)


@st.composite
def iter_cases(draw):
    k = draw(st.integers(1, 4))
    nums = draw(st.lists(st.sampled_from([0, 1, 2, 5, 10, 11, 123]), min_size=k, max_size=k, unique=True))
    ops = []
    for i in range(draw(st.integers(1, 7))):
        ops.append([draw(st.sampled_from(["return", "return", "range", "units", "make", "write", "delete", "stat", "evo", "volume"])), draw(st.integers(0, 9)), draw(st.booleans()), draw(st.sampled_from([None, True, False]))])
    return {"lc": draw(cones_()), "nums": nums, "use": draw(st.sampled_from([None, "all", "some"])), "ns": [draw(st.integers(0, 9)) for _ in nums], "odd": draw(st.sampled_from([None, None, None, None, "aspect", "angle", "zmax", "om"])), "strict": draw(st.sampled_from([True, True, False])), "in_h": draw(st.booleans()), "ops": ops}


def iterate(case, t):
    from simim.lightcone.lchandler import LCHandler, LCIterator
    from simim.galprops.galprops import Prop
    lc = case["lc"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        own = []
        for j, (num, n) in enumerate(zip(case["nums"], case["ns"])):
            c = dict(lc, n=n, seed=lc["seed"] + j)
            if case["odd"] and j == len(case["nums"]) - 1 and j > 0:
                c[case["odd"]] = c[case["odd"]] * 0.75
            own.append(c)
            write(c, t, "a", num)
            write(c, t, "b", num)
        sph = lc["shape"] in AREA
        differ = case["odd"] is not None and len(own) > 1 and not (sph and case["odd"] in ("aspect", "angle"))
        order = list(case["nums"])
        k = {}
        if case["use"] == "all":
            k["numbers"] = list(order)
        elif case["use"] == "some":
            order = order[-2:]
            own = own[-2:]
            k["numbers"] = list(order)
            differ = differ and len(order) > 1
        if not case["strict"]:
            k["require_consistent"] = False
        if differ and case["strict"]:
            t.raises(lambda: LCIterator("_testbox", "a", in_h_units=case["in_h"], **k), f"iterating over cones of different {case['odd']}", ValueError)
            t.label("refused")
            return
        it = LCIterator("_testbox", "a", in_h_units=case["in_h"], **k)
        ref = {str(n): LCHandler("_testbox", "b", n, in_h_units=case["in_h"]) for n in order}
        byname = {str(n): c for n, c in zip(order, own)}
        t.check(it.n_lcs == len(order) and sorted(int(x) for x in it.lc_numbers) == sorted(order) and set(it.lc_handlers) == set(ref), f"cones {order}: iterator holds {list(it.lc_numbers)}, {sorted(it.lc_handlers)}")
        t.check(it.is_consistent == (not differ), f"consistent: {it.is_consistent}, parameters differ: {differ}")
        made, written = set(), set()

        def compare(got, want, what):
            t.check(set(got) == set(want), f"{what}: keys {sorted(got)}, expected {sorted(want)}")
            for kk in want:
                g, w = got[kk], want[kk]
                if w is None:
                    t.check(g is None, f"{what}: cone {kk} gives {g}, expected None")
                elif isinstance(w, tuple):
                    t.close(g[0], w[0], f"{what}: cone {kk}")
                    t.close(np.array(g[1], float), np.array(w[1], float), f"{what}: cone {kk}", rtol=1e-12)
                else:
                    t.close(g, w, f"{what}: cone {kk}", rtol=1e-12)
        for kind, i, flag, in_h in case["ops"]:
            name = f"new{i % 3}"
            what = f"{kind} {i} {flag} {in_h}"
            if kind == "return":
                key = NAMES[i % len(NAMES)] if i < 7 or not made else sorted(made)[0]
                f = lambda h: h.return_property(key, use_all_inds=flag, in_h_units=in_h)
            elif kind == "range":
                f = lambda h: h.set_property_range("tag", 10 * i - 0.5, 100, reset=flag)
            elif kind == "units":
                f = lambda h: h.set_in_h_units(flag)
            elif kind == "make":
                if name in made:
                    continue
                made.add(name)
                f = lambda h: h.make_property(Prop(name, lambda vol, extra=0: vol * 2 + i + extra, ["vol"], ["None"], [0]), other_kws={"extra": 2} if flag else {})
            elif kind in ("write", "delete"):
                if name not in (made if kind == "write" else written):
                    continue
                if kind == "delete":
                    made.discard(name)
                    written.discard(name)
                else:
                    written.add(name)
                f = (lambda h: h.write_property(name, overwrite=True)) if kind == "write" else (lambda h: h.delete_property(name))
            elif kind == "stat":
                f = lambda h: h.eval_stat(lambda vol, x: np.sum(vol) + x, ["vol"], other_kws={"x": i}, use_all_inds=flag, give_args_in_h_units=in_h)
            elif kind == "evo":
                z = np.linspace(lc["zmin"], lc["zmin"] + 0.5 * (lc["zmax"] - lc["zmin"]), 3)
                if case["odd"] == "zmax":
                    continue
                f = lambda h: h.eval_stat_evo(z, lambda mass, volume: len(mass) / 1e3 + volume, ["mass"], volume_kw=True, give_args_in_h_units=in_h)
            else:
                if differ:
                    t.raises(lambda: it.volume(in_h_units=in_h), "volume of cones with different parameters", ValueError)
                num = order[i % len(order)] if flag or differ else None
                c = byname[str(num)] if num is not None else own[0]
                got = it.volume(in_h_units=in_h, **({"number": num} if num is not None else {}))
                use = ref[str(order[0])].default_in_h_units if in_h is None else in_h
                t.close(float(got), shell(c, c["zmin"], c["zmax"], area(c), use), f"iterator's volume, cone {num}", rtol=1e-9)
                t.raises(lambda: it.volume(number=77), "volume of a cone that is not iterated over", ValueError)
                continue
            method = {"return": "return_property", "range": "set_property_range", "units": "set_in_h_units", "make": "make_property", "write": "write_property", "delete": "delete_property", "stat": "eval_stat", "evo": "eval_stat_evo"}[kind]
            t.check(hasattr(it, method), f"iterator has no {method}")
            want = {kk: f(h) for kk, h in ref.items()}
            got = f(it)
            if kind in ("units", "range", "make", "write", "delete"):
                pass
            else:
                compare(got, want, what)
            for kk, h in ref.items():
                g = it.lc_handlers[kk]
                t.check(state(g) == state(h), f"after {what}: cone {kk} selection {state(g)}, expected {state(h)}")
                t.check(g.default_in_h_units == h.default_in_h_units, f"after {what}: units of cone {kk}")
                for s_ in ("saved", "loaded"):
                    pass
                t.check(sorted(set(g.extract_keys())) == sorted(set(h.extract_keys())), f"after {what}: cone {kk} has {sorted(g.extract_keys())}, expected {sorted(h.extract_keys())}")
                g2, h2 = LCHandler("_testbox", "a", int(kk)), LCHandler("_testbox", "b", int(kk))
                t.check(sorted(g2.extract_keys()) == sorted(h2.extract_keys()), f"after {what}: file of cone {kk} holds {sorted(g2.extract_keys())}, expected {sorted(h2.extract_keys())}")
    t.label("cones:" + str(len(order)), lc["shape"])
    t.nontrivial(len(order) > 1 and any(c["n"] > 1 for c in own))


CHECKS = [Check("evo", evo_cases(), evo, quick=800, thorough=6000), Check("volume", volume_cases(), volume, quick=600, thorough=4000), Check("iterate", iter_cases(), iterate, quick=480, thorough=3000)]
