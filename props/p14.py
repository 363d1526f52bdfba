"""P14: samples, noise and their sum."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, bulk, coords, cell_of, point_lists
from vlib.instr import cubes, make_field
from simim.instrument import Instrument
from simim.instrument.noise_functions import white_noise, zero_noise


def ramp(Nsamples, dt, a=1.0, b=0.0):
    return a * dt * np.arange(1, Nsamples + 1) + b


@st.composite
def cases(draw):
    cube = draw(cubes(max_props=2))
    nd = draw(st.integers(1, 4))
    offs = [(0, 0), (1, 0), (-1, 2), (0.1, 0), (9, 9)]
    dets = [{"off": draw(st.sampled_from([None] + offs)), "noise": draw(st.sampled_from(["none", "ramp", "white", "ramp"])), "a": draw(st.sampled_from([0.5, 2.0, -3.0])),
             "b": draw(st.sampled_from([0.0, 10.0])), "seed": draw(SEED), "f": draw(st.integers(0, cube["n"][2] - 1))} for _ in range(nd)]
    spec2 = {k: (cube[k][:2] if isinstance(cube[k], list) else cube[k]) for k in cube}
    return {"cube": cube, "dets": dets, "pts": draw(point_lists(spec2, max_size=20)), "dt": draw(st.sampled_from([1.0, 0.1, 2.5, 3])),
            "nf": draw(st.integers(1, 3)), "pick": draw(st.one_of(st.none(), st.integers(0, 2))), "seed": draw(SEED)}


def run(case, t):
    cube = case["cube"]
    n = cube["n"]
    spec2 = {k: (cube[k][:2] if isinstance(cube[k], list) else cube[k]) for k in cube}
    inst = Instrument()

    def add(seeded):
        inst = Instrument()
        for j, d in enumerate(case["dets"]):
            kw = {}
            if d["off"] is not None:
                kw["pointing_offsets"] = tuple(v * p for v, p in zip(d["off"], cube["pix"]))
            if d["noise"] == "ramp":
                kw.update(noise_function=ramp, noise_kwargs={"a": d["a"], "b": d["b"]})
            elif d["noise"] == "white":
                kw.update(noise_function="white", noise_kwargs={"rms": abs(d["a"]), "bias": d["b"], "rng": np.random.default_rng(d["seed"])})
            else:
                kw.update(noise_function="none")
            f0 = (d["f"] + 0.5 - n[2] / 2) * cube["pix"][2] + cube["cen"][2]
            inst.add_detector(name=f"d{j}", nominal_frequency=1, spatial_response="gauss", spatial_kwargs={"fwhmx": 0.02 * cube["pix"][0], "fwhmy": 0.02 * cube["pix"][1]},
                              spectral_response="boxcar", spectral_kwargs={"freq0": f0, "width": 0.5 * cube["pix"][2]}, **kw)
        for i in range(case["nf"]):
            inst.add_field(make_field(cube, vals[i]), name=f"f{i}")
        inst.map_fields(kernel_size=3)
        return inst
    vals = [bulk(case["seed"] + i, tuple(n) + (cube["np"],)) for i in range(case["nf"])]
    pos = coords(spec2, case["pts"])
    if len(case["pts"]) == 0:
        pos = np.zeros((0, 2))
    names = [] if case["pick"] is None else [f"f{case['pick'] % case['nf']}"]
    which = names or [f"f{i}" for i in range(case["nf"])]

    def sample(inst, **kw):
        p = pos.copy()
        r = inst.sample_fields(p, *names, **kw)
        t.close(p, pos, "the positions", rtol=0)
        if len(which) == 1:
            t.check(isinstance(r, np.ndarray), "one field gives an array")
            return {which[0]: r}
        t.check(isinstance(r, dict), "several fields give a dict")
        t.equal(sorted(r), sorted(which), "fields sampled")
        return r
    N, D = len(case["pts"]), len(case["dets"])
    sig = {}
    for f in which:
        s = np.zeros((N, D))
        v = vals[int(f[1:])]
        for j, d in enumerate(case["dets"]):
            off = d["off"] or (0, 0)
            sh = [[[k + int(np.floor(q + o)), (q + o) % 1] for (k, q), o in zip(p, off)] for p in case["pts"]]
            for i, c in enumerate(cell_of(spec2, sh)):
                s[i, j] = np.nan if c is None else v[c[0], c[1], d["f"], 0]
        sig[f] = s
    A = add(True)
    maps0 = {f: A.maps[f].grid.copy() for f in which}
    only = sample(A, sample_noise=False)
    for f in which:
        t.close(only[f], sig[f], f"signal of {f}", rtol=1e-8, atol=1e-10 * np.abs(vals[int(f[1:])]).sum())
        t.close(A.maps[f].grid, maps0[f], "the map", rtol=0)
    B, C = add(True), add(True)
    noise = sample(B, sample_signal=False, dt=case["dt"])
    both = sample(C, dt=case["dt"])
    streams = [np.random.default_rng(d["seed"]) for d in case["dets"]]
    for f in which:
        w = np.zeros((N, D))
        for j, d in enumerate(case["dets"]):
            if d["noise"] == "ramp":
                w[:, j] = d["a"] * case["dt"] * np.arange(1, N + 1) + d["b"]
            elif d["noise"] == "white":
                w[:, j] = white_noise(N, case["dt"], rms=abs(d["a"]), bias=d["b"], rng=streams[j])
        t.close(noise[f], w, f"noise alone of {f}", rtol=1e-12)
        t.close(both[f], only[f] + w, f"signal plus noise of {f}", rtol=1e-9, atol=1e-9)
    t.raises(lambda: A.sample_fields(pos, *names), "noise without a time step")
    t.raises(lambda: A.sample_fields(pos, *names, sample_signal=False, sample_noise=False, dt=1.0), "neither signal nor noise")
    t.raises(lambda: A.sample_fields(np.zeros((3, 3)), *names, dt=1.0), "positions of three coordinates")
    ins = np.isfinite(np.concatenate([s.ravel() for s in sig.values()])) if N else np.zeros(0)
    t.nontrivial(N > 1 and D > 1 and ins.any())
    t.label(f"{case['nf']} fields", "one field picked" if names else "all fields", *["noise " + d["noise"] for d in case["dets"]])
    if any(d["off"] for d in case["dets"]):
        t.label("pointing offsets")
    if len({tuple(d["off"] or (0, 0)) for d in case["dets"]}) > 1:
        t.label("several offsets")


@st.composite
def whites(draw):
    return {"n": draw(st.sampled_from([0, 1, 20000, 20001, 40000])), "dt": draw(st.sampled_from([1, 1.0, 0.01, 0.3, 4.0, 100])), "rms": draw(st.sampled_from([1, 0.2, 5.0, 0.0, 1e-9, 1e6])),
            "bias": draw(st.sampled_from([0, 3.0, -1e3, 1e-8])), "seed": draw(SEED)}


def white(case, t):
    n, dt, rms, bias = case["n"], case["dt"], case["rms"], case["bias"]
    x = white_noise(n, dt, rms=rms, bias=bias, rng=np.random.default_rng(case["seed"]))
    t.equal(np.shape(x), (n,), "number of samples")
    t.close(white_noise(n, dt, rms=rms, bias=bias, rng=np.random.default_rng(case["seed"])), x, "same generator, same noise", rtol=0)
    t.equal(np.asarray(zero_noise(n, dt)).tolist(), [0.0] * n, "no noise")
    sd = rms / np.sqrt(dt)
    unit = white_noise(n, 1.0, rms=1.0, bias=0.0, rng=np.random.default_rng(case["seed"]))
    t.close(x, bias + sd * unit, "noise scales with rms and inverse root of the time step", rtol=1e-9, atol=1e-9 * (abs(bias) + sd))
    t.equal(np.shape(white_noise(n, dt, rms=rms, bias=bias)), (n,), "noise without a generator")
    if n > 1000:
        t.check(abs(x.mean() - bias) <= 6.5 * sd / np.sqrt(n) + 1e-9 * abs(bias), lambda: f"mean {x.mean()} expected {bias} +- {sd / np.sqrt(n)}")
        t.check(abs(x.std() - sd) <= 6.5 * sd / np.sqrt(2 * n) + 1e-9 * abs(bias), lambda: f"standard deviation {x.std()} expected {sd}")
        if sd:
            z = (x - bias) / sd
            t.check(abs(np.mean(z[1:] * z[:-1])) < 6.5 / np.sqrt(n) + 1e-6, "samples are correlated")
            t.check(abs(np.mean(np.abs(z) < 1) - 0.6827) < 6.5 * 0.466 / np.sqrt(n) + 1e-3, "samples are not normal")
    t.nontrivial(n > 1000 and rms > 0)


CHECKS = [Check("samples", cases(), run, quick=15000, thorough=40000), Check("white", whites(), white, quick=4000, thorough=20000)]
