"""P13: instrument histories against a model of the configuration."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, bulk
from vlib.instr import (cubes, custom_psf, custom_spec, make_field, psf_args, ref_beam, ref_map, spatial_list, spec_args, spectrals)
from simim.instrument import Instrument
from simim.map import Grid

NAMES = ["a", "b", "c", "0", "1", "3"]


def series(Nsamples, dt, k=1.0):
    return k * dt * (1 + np.arange(Nsamples) % 7)


@st.composite
def cases(draw):
    cube = dict(draw(cubes(max_props=2)))
    cube["n"] = [min(k, 4) for k in cube["n"]]
    sp = draw(spatial_list(cube, 3))
    sc = [draw(spectrals(cube)) for _ in range(3)]
    ops = []
    # most histories start from an instrument at work: detectors, fields, everything mapped
    if draw(st.integers(0, 3)):
        for _ in range(draw(st.integers(1, 3))):
            ops.append({"op": "add_det", "name": None, "sp": draw(st.integers(0, 2)), "sc": draw(st.integers(0, 2)), "k": draw(st.integers(1, 3)), "off": draw(st.sampled_from([None, [0, 0], [1, 0]]))})
        for _ in range(draw(st.integers(1, 3))):
            ops.append({"op": "add_field", "name": None, "inplace": draw(st.booleans()), "prop": draw(st.sampled_from([None, 0, cube["np"] - 1])), "seed": draw(SEED)})
        ops.append({"op": "map", "names": [], "norm": "peak"})
    started = len(ops)
    fresh = st.one_of(st.none(), st.sampled_from(NAMES))
    name = st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.sampled_from(NAMES))
    for step in range(draw(st.integers(4, 18))):
        op = ["add_det", "add_field", None][step] if step < 3 and not started else None
        op = op or draw(st.sampled_from(["add_det", "add_det", "del_det", "add_field", "add_field", "del_field", "set_sp", "set_sc", "set_noise", "map", "mapsample", "mapsample", "sample", "sample", "mapsample", "sample", "touch", "bad", "partial", "again", "again"]))
        o = {"op": op}
        if op == "partial":
            # something changes, some of the fields are mapped again, some are sampled
            ops.append({"op": draw(st.sampled_from(["set_sp", "set_sc"])), "names": [draw(st.integers(0, 3))], "i": draw(st.integers(0, 2))})
            ops.append({"op": "map", "names": [draw(st.integers(0, 2))], "norm": draw(st.sampled_from(["peak", "area"]))})
            o = {"op": "sample", "names": draw(st.sampled_from([[], [0], [1], [2]])), "signal": True, "noise": False, "pts": [[0, 0], [1, 0]]}
        elif op == "again":
            # something goes and comes back under the name it had
            i = draw(st.integers(0, 3))
            if draw(st.booleans()):
                ops.append({"op": "del_field", "names": [i]})
                ops.append({"op": "add_field", "name": "gone", "inplace": draw(st.booleans()), "prop": draw(st.sampled_from([None, 0, 1])), "seed": draw(SEED)})
            else:
                ops.append({"op": "del_det", "names": [i]})
                if draw(st.booleans()):
                    ops.append({"op": "sample", "names": [], "signal": True, "noise": False, "pts": [[0, 0]]})
                ops.append({"op": "add_det", "name": "gone", "sp": draw(st.integers(0, 2)), "sc": draw(st.integers(0, 2)), "k": draw(st.integers(1, 3)), "off": draw(st.sampled_from([None, [0, 0], [0, -1]]))})
            if draw(st.booleans()):
                ops.append({"op": "map", "names": [], "norm": draw(st.sampled_from(["peak", "area"]))})
            o = {"op": "sample", "names": [], "signal": True, "noise": draw(st.booleans()), "pts": [[0, 0], [0, 1]]}
        elif op == "add_det":
            o.update(name=draw(fresh), sp=draw(st.one_of(st.none(), st.integers(0, 2))), sc=draw(st.one_of(st.none(), st.integers(0, 2))),
                     k=draw(st.one_of(st.none(), st.integers(1, 3))), off=draw(st.sampled_from([None, [0, 0], [1, 0], [0, -1]])))
        elif op in ("del_det", "del_field"):
            o["names"] = draw(st.lists(name, min_size=1, max_size=2))
        elif op == "add_field":
            o.update(name=draw(fresh), inplace=draw(st.booleans()), prop=draw(st.sampled_from([None, 0, 1])), seed=draw(SEED))
        elif op in ("set_sp", "set_sc", "set_noise"):
            o.update(names=draw(st.lists(st.one_of(name, st.just("instrument")), max_size=2)), i=draw(st.integers(0, 2)))
        elif op in ("map", "sample", "mapsample"):
            if op == "mapsample":
                ops.append({"op": "map", "names": [], "norm": draw(st.sampled_from(["peak", "area"]))})
                o["op"] = op = "sample"
            o["names"] = draw(st.lists(name, max_size=2, unique=True))
            if op == "sample":
                o.update(signal=draw(st.integers(0, 5)) > 0, noise=draw(st.booleans()), pts=draw(st.lists(st.tuples(st.integers(-1, 4), st.integers(-1, 4)), min_size=1, max_size=5)))
            else:
                o["norm"] = draw(st.sampled_from(["peak", "area"]))
        elif op == "touch":
            o.update(i=draw(st.integers(0, 5)))
        elif op == "bad":
            o["kind"] = draw(st.sampled_from(["nodata", "2d", "fourier", "prop", "unit", "flux", "coarse", "resp", "offsets", "kwargs"]))
        ops.append(o)
    return {"cube": cube, "sp": sp, "sc": sc, "defaults": draw(st.integers(0, 3)) > 0, "ops": ops}


class Model:
    def __init__(self):
        self.dets, self.fields, self.order, self.forder = {}, {}, [], []
        self.ndet = self.nfield = 0
        self.maps = {}  # field -> dict(valid, norm)


def run(case, t):
    cube, sp, sc = case["cube"], case["sp"], case["sc"]
    n = cube["n"]
    kw = {}
    d0 = {"sp": None, "sc": None, "k": None}
    if case["defaults"]:
        p, s = psf_args(sp[0]), spec_args(sc[0])
        kw = dict(default_spatial_response=p["spatial_response"], default_spatial_kwargs=p["spatial_kwargs"], default_spectral_response=s["spectral_response"],
                  default_spectral_kwargs=s["spectral_kwargs"], default_noise_function=series, default_noise_kwargs={"k": 1.0})
        d0 = {"sp": 0, "sc": 0, "k": 1}
    inst = Instrument(spatial_unit="rad", spectral_unit="GHz", flux_unit="Jy", **kw)
    given = [v for v in kw.values() if isinstance(v, dict)]
    M = Model()
    handed = []  # grids handed over not in place: (grid, values)
    stale_seen = mapped_ok = 0
    gone = {"det": None, "field": None}

    def spoil(*dicts):
        """The caller goes on using the dictionaries it passed."""
        for d in dicts:
            for k in list(d):
                d[k] = d[k] * 1.5 + 0.1
    spoil(*given)

    def listings():
        t.equal(list(inst.detector_names), M.order, "detector listing")
        t.equal(sorted(inst.detectors), sorted(M.order), "detectors")
        t.equal(list(inst.field_names), M.forder, "field listing")
        t.equal(sorted(inst.fields), sorted(M.forder), "fields")
        t.check(set(inst.maps) <= set(M.forder), lambda: f"maps of fields that are gone: {set(inst.maps) - set(M.forder)}")
        t.check(set(M.maps) <= set(inst.maps), "a map disappeared")
        for g, v in handed:
            t.close(g.grid, v, "a grid added not in place", rtol=0)

    def values_of(f):
        fd = M.fields[f]
        return fd["values"][..., fd["prop"]]

    for o in case["ops"]:
        op = o["op"]
        if "names" in o:
            # numbers stand for the detectors or fields there are, in order
            have = M.order if op in ("del_det", "set_sp", "set_sc", "set_noise") else M.forder
            o = dict(o, names=[x if isinstance(x, str) else (have[x % len(have)] if have else "none there") for x in o["names"]])
        if op == "add_det":
            nm = str(M.ndet) if o["name"] is None else o["name"]
            use = {k: (d0[k] if o[k] is None else o[k]) for k in ("sp", "sc", "k")}
            akw = {}
            if o["name"] == "gone":
                nm = gone["det"] or "gone"
                o = dict(o, name=nm)
            if o["name"] is not None:
                akw["name"] = o["name"]
            if o["sp"] is not None:
                akw.update(psf_args(sp[o["sp"]]))
            if o["sc"] is not None:
                akw.update(spec_args(sc[o["sc"]]))
            if o["k"] is not None:
                akw.update(noise_function=series, noise_kwargs={"k": float(o["k"])})
            if o["off"] is not None:
                akw["pointing_offsets"] = tuple(float(v) * cube["pix"][i] for i, v in enumerate(o["off"]))
            go = lambda: inst.add_detector(nominal_frequency=100, **akw)
            if nm in M.order or None in use.values():
                t.raises(go, "adding a detector whose name is taken or whose response is unknown")
            else:
                go()
                spoil(*[v for v in akw.values() if isinstance(v, dict)])
                M.order.append(nm)
                M.dets[nm] = dict(use, off=o["off"] or [0, 0])
                M.ndet += 1
                for m in M.maps.values():
                    m["valid"] = False
        elif op == "del_det":
            go = lambda: inst.del_detectors(*o["names"])
            if any(x not in M.order for x in o["names"]) or len(set(o["names"])) < len(o["names"]):
                t.raises(go, "deleting unknown or repeated detectors")
            else:
                go()
                for x in o["names"]:
                    gone["det"] = x
                    M.order.remove(x)
                    del M.dets[x]
                for m in M.maps.values():
                    m["valid"] = False
        elif op == "add_field":
            v = bulk(o["seed"], tuple(n) + (cube["np"],))
            g = make_field(cube, v, axunits=["rad", "rad", "GHz"], gridunits="Jy")
            if o["name"] == "gone":
                o = dict(o, name=gone["field"] or "gone")
            nm = str(M.nfield) if o["name"] is None else o["name"]
            fkw = {} if o["prop"] is None else {"field_property_idx": o["prop"]}
            go = lambda: inst.add_field(g, name=o["name"], in_place=o["inplace"], **fkw)
            if nm in M.forder or (o["prop"] or 0) >= cube["np"]:
                t.raises(go, "adding a field whose name is taken or a property the grid lacks")
            else:
                go()
                M.forder.append(nm)
                M.fields[nm] = {"values": v, "prop": o["prop"] or 0, "grid": g, "inplace": o["inplace"]}
                M.nfield += 1
                if not o["inplace"]:
                    handed.append((g, v))
        elif op == "del_field":
            go = lambda: inst.del_fields(*o["names"])
            if any(x not in M.forder for x in o["names"]) or len(set(o["names"])) < len(o["names"]):
                t.raises(go, "deleting unknown or repeated fields")
            else:
                go()
                for x in o["names"]:
                    gone["field"] = x
                    M.forder.remove(x)
                    del M.fields[x]
                    M.maps.pop(x, None)
        elif op in ("set_sp", "set_sc", "set_noise"):
            ds = [x for x in o["names"] if x != "instrument"]
            bad = any(x not in M.order for x in ds) or len(set(ds)) < len(ds)
            if op == "set_sp":
                rkw = psf_args(sp[o["i"]])
                go = lambda: inst.set_spatial_respones(*o["names"], **rkw)
            elif op == "set_sc":
                rkw = spec_args(sc[o["i"]])
                go = lambda: inst.set_spectral_respones(*o["names"], **rkw)
            else:
                rkw = {"noise_function": series, "noise_kwargs": {"k": float(o["i"])}}
                go = lambda: inst.set_noise_functions(*o["names"], **rkw)
            key = {"set_sp": "sp", "set_sc": "sc", "set_noise": "k"}[op]
            if bad:
                t.raises(go, "setting the response of unknown or repeated detectors")
            else:
                go()
                spoil(*[v for v in rkw.values() if isinstance(v, dict)])
                hit = M.order if not o["names"] else ds
                for x in hit:
                    M.dets[x][key] = o["i"]
                if "instrument" in o["names"]:
                    d0[key] = o["i"]
                if hit and M.maps:
                    for m in M.maps.values():
                        if op != "set_noise":
                            m["valid"] = False
                        elif m["valid"]:
                            m["valid"] = None  # either answer is right
        elif op == "map":
            go = lambda: inst.map_fields(*o["names"], kernel_size=3, spatial_response_norm=o["norm"])
            which = o["names"] or M.forder
            if any(x not in M.forder for x in o["names"]) or len(set(o["names"])) < len(o["names"]):
                t.raises(go, "mapping unknown or repeated fields")
            elif not M.order and which:
                t.raises(go, "mapping without detectors")
            elif which:
                go()
                for x in which:
                    M.maps[x] = {"valid": True, "norm": o["norm"]}
        elif op == "sample":
            which = o["names"] or M.forder
            if not which:
                continue
            c = np.array([[cube["cen"][i] + (p[i] + 0.5 - n[i] / 2) * cube["pix"][i] for i in range(2)] for p in o["pts"]])
            c0 = c.copy()
            go = lambda: inst.sample_fields(c, *o["names"], sample_signal=o["signal"], sample_noise=o["noise"], dt=0.5)
            if any(x not in M.forder for x in o["names"]) or len(set(o["names"])) < len(o["names"]):
                t.raises(go, "sampling unknown or repeated fields")
                continue
            if not (o["signal"] or o["noise"]):
                t.raises(go, "sampling neither signal nor noise")
                continue
            states = [M.maps.get(x, {"valid": False})["valid"] for x in which]
            if False in states:
                t.raises(go, "sampling a field whose map is stale or missing")
                stale_seen += 1
                continue
            try:
                res = go()
            except ValueError:
                if None in states:
                    continue
                raise
            mapped_ok += 1
            t.close(c, c0, "the positions", rtol=0)
            if len(which) == 1:
                res = {which[0]: res}
            t.equal(sorted(res), sorted(which), "sampled fields")
            for f in which:
                out = np.zeros((len(o["pts"]), len(M.order)))
                big = 1.0
                for j, d in enumerate(M.order):
                    if o["noise"]:
                        out[:, j] += series(len(o["pts"]), 0.5, float(M.dets[d]["k"]))
                    if o["signal"]:
                        b = ref_beam(cube, sp[M.dets[d]["sp"]], [3, 3], M.maps[f]["norm"])
                        m = ref_map(cube, values_of(f), b, sc[M.dets[d]["sc"]])
                        big = max(big, np.abs(values_of(f)).sum() * b.max())
                        for i, p in enumerate(o["pts"]):
                            x, y = p[0] + M.dets[d]["off"][0], p[1] + M.dets[d]["off"][1]
                            out[i, j] += m[x, y] if 0 <= x < n[0] and 0 <= y < n[1] else np.nan
                t.close(res[f], out, f"samples of field {f}", rtol=1e-8, atol=1e-9 * big)
        elif op == "touch":
            # the caller goes on using a grid it did not hand over in place
            if handed:
                i = o["i"] % len(handed)
                g, v = handed[i]
                g.grid = g.grid + 1.0
                v = v + 1.0
                if o["i"] > 3:
                    g.pad(0, 1)
                    v = np.pad(v, [(1, 1), (0, 0), (0, 0), (0, 0)])
                handed[i] = (g, v)
        elif op == "bad":
            k = o["kind"]
            au, gu = ["rad", "rad", "GHz"], "Jy"
            if k in ("nodata", "2d", "fourier", "unit", "flux", "prop", "coarse"):
                if k == "unit":
                    au = ["rad", "deg", "GHz"]
                if k == "flux":
                    gu = "mJy"
                g = make_field(cube, bulk(1, tuple(n) + (cube["np"],)), axunits=au, gridunits=gu)
                kw2 = {}
                if k == "nodata":
                    g = Grid(1, (0, 0, 0), (2, 2, 2), (1, 1, 1))
                if k == "2d":
                    g = Grid(1, (0, 0), (2, 2), (1, 1))
                    g.init_grid()
                if k == "fourier":
                    g.fourier_transform()
                if k == "prop":
                    kw2 = {"field_property_idx": cube["np"]}
                if k == "coarse":
                    inst.best_spatial_res = 0.5 * max(cube["pix"][:2])
                t.raises(lambda: inst.add_field(g, name="zz", **kw2), f"adding an unusable field ({k})")
                if k == "coarse":
                    inst.best_spatial_res = None
            elif k == "resp":
                t.raises(lambda: inst.add_detector(name="zz", spatial_response="square", spatial_kwargs={}, spectral_response="gauss", spectral_kwargs={}, noise_function="none"), "an unknown response")
            elif k == "offsets":
                t.raises(lambda: inst.add_detector(name="zz", spatial_response="gauss", spatial_kwargs={}, spectral_response="gauss", spectral_kwargs={}, noise_function="none", pointing_offsets=(1, 2, 3)), "three offsets")
            else:
                t.raises(lambda: inst.set_spatial_respones(spatial_response="gauss", spatial_kwargs=[1]), "keyword arguments that are not a dictionary")
        listings()
        t.label(op)
    t.nontrivial(mapped_ok > 0 and stale_seen + len(M.maps) > 0)
    t.label("sampled" if mapped_ok else "never sampled", "stale map refused" if stale_seen else "no stale map met")


CHECKS = [Check("history", cases(), run, quick=12000, thorough=80000)]
