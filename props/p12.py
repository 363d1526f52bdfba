"""P12: instrument maps against the defining formula."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, bulk, check_lattice
from vlib.instr import (cubes, field_cube, make_field, psf_args, ref_beam, ref_map, spatial_list, spec_args, spectrals, spec_value, centers)
from simim.instrument import Detector, Instrument
from simim.map import Grid


@st.composite
def cases(draw):
    cube = draw(cubes())
    sp = draw(spatial_list(cube, draw(st.integers(1, 3))))
    sc = [draw(spectrals(cube)) for _ in range(draw(st.integers(1, 2)))]
    nd = draw(st.sampled_from([1, 2, 2, 3, 4]))
    dets = [[draw(st.integers(0, len(sp) - 1)), draw(st.integers(0, len(sc) - 1))] for _ in range(nd)]
    ker = draw(st.sampled_from(["int", "pair", "res", "beam"]))
    k = [1 + 2 * draw(st.integers(0, 3)), 1 + 2 * draw(st.integers(0, 3))]

    def seen(c):
        """A field none of whose cells a detector sees has no weighted average."""
        return c if all(sum(spec_value(sc[b], f) for f in centers(c, 2)) > 1e-3 for _, b in dets) else cube
    fields = [{"prop": draw(st.sampled_from([None] + list(range(cube["np"])))), "inplace": draw(st.booleans()), "seed": draw(SEED),
               "cube": seen(draw(field_cube(cube, ker in ("beam", "res"), ker == "beam"))) if i else cube} for i in range(draw(st.integers(1, 3)))]
    return {"cube": cube, "sp": sp, "sc": sc, "dets": dets, "ker": ker, "k": k, "kseed": draw(SEED), "units": draw(st.sampled_from(["none", "all", "several"])),
            "norm": draw(st.sampled_from(["peak", "area", "none", None])), "pad": draw(st.sampled_from([None, None, 0, 2])), "fields": fields, "c": draw(st.sampled_from([2.0, -0.5]))}


def setup(case, dets, values):
    cube = case["cube"]
    kw, fkw = {}, {}
    if case["units"] != "none":
        kw.update(spatial_unit="rad", spectral_unit="GHz", flux_unit="Jy")
        fkw.update(axunits=["rad", "rad", "GHz"], gridunits="Jy")
    if case["units"] == "several":
        fkw["gridunits"] = ["Jy"] * cube["np"]
    if case["ker"] == "res":
        kw["best_spatial_res"] = cube["pix"][0] if cube["pix"][0] == cube["pix"][1] else max(cube["pix"][:2])
    inst = Instrument(**kw)
    for j, (a, b) in enumerate(dets):
        inst.add_detector(name=f"d{j}", nominal_frequency=100, noise_function="none", **psf_args(case["sp"][a]), **spec_args(case["sc"][b]))
    grids = []
    for i, f in enumerate(case["fields"]):
        g = make_field(f["cube"], values[i], **fkw)
        akw = {} if f["prop"] is None else {"field_property_idx": f["prop"]}
        inst.add_field(g, name=f"f{i}", in_place=f["inplace"], **akw)
        grids.append(g)
    return inst, grids


def run(case, t):
    cube = case["cube"]
    n = cube["n"]
    if case["ker"] == "res":
        if cube["pix"][0] != cube["pix"][1]:
            case = dict(case, ker="pair")
    norm = case["norm"] or "peak"
    values = [bulk(f["seed"], tuple(f["cube"]["n"]) + (cube["np"],)) for f in case["fields"]]
    if case["ker"] == "int":
        k = [case["k"][0]] * 2
    elif case["ker"] == "res":
        k = [11, 11]
    else:
        k = case["k"]
    mkw = {} if case["norm"] is None else {"spatial_response_norm": case["norm"]}
    given = None
    if case["ker"] == "int":
        mkw["kernel_size"] = k[0]
    elif case["ker"] == "pair":
        mkw["kernel_size"] = tuple(k)
    elif case["ker"] == "beam":
        given = Grid(1, (0.0, 0.0, cube["cen"][2]), (k[0] * cube["pix"][0], k[1] * cube["pix"][1], n[2] * cube["pix"][2]), tuple(cube["pix"]))
        given.init_grid()
        bv = bulk(case["kseed"], tuple(k) + (n[2], 1), "pos")
        given.grid = bv.copy()
        mkw["beam"] = given
    if case["pad"] is not None:
        mkw["pad"] = case["pad"]

    def beams(c):
        return [bv[..., 0] if given is not None else ref_beam(c, s, k, norm) for s in case["sp"]]
    B = beams(cube)
    bmax = B
    inst, grids = setup(case, case["dets"], values)
    inst.map_fields(**mkw)
    refs = {}
    for i, f in enumerate(case["fields"]):
        own = values[i][..., f["prop"] or 0]
        cube = f["cube"]
        n = cube["n"]
        B = beams(cube)
        bmax = bmax + B
        m = inst.maps[f"f{i}"]
        t.equal(tuple(m.grid.shape), (n[0], n[1], len(case["dets"])), "map shape")
        check_lattice(t, m, n[:2], cube["pix"][:2], cube["cen"][:2], "map")
        t.close(grids[i].grid, values[i], "the field after mapping", rtol=0)
        check_lattice(t, grids[i], n, cube["pix"], cube["cen"], "the field")
        for j, (a, b) in enumerate(case["dets"]):
            r = ref_map(cube, own, B[a], case["sc"][b])
            refs[i, j] = r
            tol = 1e-10 * (np.abs(own).sum() * B[a].max() + 1)
            t.close(m.grid[..., j], r, f"map of field {i} by detector {j}", rtol=1e-8, atol=tol)
            t.close(m.sample(np.array([[cube["cen"][0], cube["cen"][1]]]) + 0.01 * np.array(cube["pix"][:2]), properties=[j])[0, 0],
                    m.grid[int((n[0] / 2 + 0.01) // 1), int((n[1] / 2 + 0.01) // 1), j], "sampling the map", rtol=0)
    if given is not None:
        t.close(given.grid, bv, "the beam given", rtol=0)
    cube = case["cube"]
    n = cube["n"]
    B = bmax
    # each detector alone (and through the single-detector class) makes the same map
    j = len(case["dets"]) - 1
    a, b = case["dets"][j]
    kw = {"spatial_res": inst.best_spatial_res}
    if case["units"] != "none":
        kw.update(spatial_unit="rad", spectral_unit="GHz", flux_unit="Jy")
    one = Detector(nominal_frequency=100, noise_function="none", **psf_args(case["sp"][a]), **spec_args(case["sc"][b]), **kw)
    one.add_field(grids[0], field_property_idx=case["fields"][0]["prop"])
    one.map_fields(**mkw)
    tol = 1e-10 * (np.abs(values[0]).sum() * B[a].max() + 1)
    t.close(one.maps["0"].grid[..., 0], refs[0, j], "map by the detector alone", rtol=1e-8, atol=tol)
    # linear in the field
    v2 = [v + case["c"] * w for v, w in zip(values, [bulk(f["seed"] + 1, v.shape) for f, v in zip(case["fields"], values)])]
    w2 = [bulk(f["seed"] + 1, v.shape) for f, v in zip(case["fields"], values)]
    ia, _ = setup(case, case["dets"], v2)
    ib, _ = setup(case, case["dets"], w2)
    ia.map_fields(**mkw)
    ib.map_fields(**mkw)
    for i in range(len(values)):
        tol = 1e-9 * (np.abs(v2[i]).sum() + np.abs(w2[i]).sum() + 1) * max(x.max() for x in B)
        t.close(ia.maps[f"f{i}"].grid, inst.maps[f"f{i}"].grid + case["c"] * ib.maps[f"f{i}"].grid, "linearity in the field", rtol=1e-7, atol=tol)
    # flat response, vanishing beam: the plain spectral average
    flat = Instrument()
    flat.add_detector(nominal_frequency=1, noise_function="none", spatial_response="gauss", spatial_kwargs={"fwhmx": 0.02 * cube["pix"][0], "fwhmy": 0.02 * cube["pix"][1]},
                      spectral_response="boxcar", spectral_kwargs={"freq0": cube["cen"][2], "width": 1e4})
    flat.add_field(grids[0], field_property_idx=case["fields"][0]["prop"])
    flat.map_fields(kernel_size=3)
    own = values[0][..., case["fields"][0]["prop"] or 0]
    t.close(flat.maps["0"].grid[..., 0], own.mean(axis=2), "flat response and vanishing beam", rtol=1e-8, atol=1e-10 * (np.abs(own).sum() + 1))
    t.label("kernel " + case["ker"], "norm " + norm, f"{len(case['dets'])} detectors", "padded" if case["pad"] else "not padded")
    if len({str(f["cube"]) for f in case["fields"]}) > 1:
        t.label("fields of different geometry")
    if any((f["prop"] or 0) > 0 for f in case["fields"]):
        t.label("a later property is observed")
    t.nontrivial(max(k) > 1 and n[2] > 1 and n[0] * n[1] > 1)


CHECKS = [Check("maps", cases(), run, quick=10500, thorough=40000)]
