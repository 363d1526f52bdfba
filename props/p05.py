"""P05: grid Fourier transforms against an explicit discrete Fourier sum, round trips and Parseval."""
import numpy as np
from vlib.hyp import st
from vlib.core import Check
from vlib.grids import SEED, build, bulk, check_lattice, grid_specs


@st.composite
def cases(draw):
    spec = draw(grid_specs(max_dim=4, max_cells=120, max_n=8, max_props=2, big=True))
    nd = len(spec["n"])
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 4)) == 0:
            steps.append(None)
        else:
            p = draw(st.permutations(list(range(nd))))
            steps.append(p[: draw(st.integers(1, nd))])
    return {"spec": spec, "steps": steps, "seed": draw(SEED), "kind": draw(st.sampled_from(["float", "complex", "int"])),
            "norm": draw(st.booleans()), "scalar": draw(st.booleans())}


def dft(data, i, n, pix, norm, inverse):
    """One axis by the defining sum.  Frequencies are those of the centred axis;
    the phase origin is the first cell."""
    k = np.arange(n) - n // 2          # mode numbers, ascending, zero in the centre
    j = np.arange(n)
    if not inverse:
        m = np.exp(-2j * np.pi * np.outer(k, j) / n) * (pix if norm else 1.0)
    else:
        m = np.exp(2j * np.pi * np.outer(j, k) / n) / n / (pix if norm else 1.0)
    return np.moveaxis(np.tensordot(m, data, axes=([1], [i])), 0, i)


def run(case, t):
    spec = case["spec"]
    nd = len(spec["n"])
    g = build(spec)
    data = bulk(case["seed"], g.grid.shape, case["kind"])
    g.grid = data.copy()
    cur = data.astype(complex)
    four = [False] * nd
    scale = np.abs(data).max(initial=0) + 1e-30
    norm = case["norm"]
    for s in case["steps"]:
        ax = list(range(nd)) if s is None else s
        kw = {} if norm else {"normalize": False}
        if s is None:
            g.fourier_transform(**kw)
        else:
            g.fourier_transform(ax[0] if len(ax) == 1 and case["scalar"] else list(ax), **kw)
        for i in ax:
            cur = dft(cur, i, spec["n"][i], spec["pix"][i], norm, four[i])
            four[i] = not four[i]
        t.equal([bool(b) for b in g.fourier_space], four, "which axes are in Fourier space")
        m = np.abs(cur).max(initial=0) + 1e-300
        t.close(g.grid, cur, "transformed values", rtol=1e-8, atol=1e-9 * m)
        check_lattice(t, g, spec["n"], spec["pix"], spec["cen"])
        if norm:
            # Parseval, mixed spaces included
            va = np.prod([p for p in spec["pix"]])
            vk = np.prod([1 / (spec["n"][i] * spec["pix"][i]) if four[i] else spec["pix"][i] for i in range(nd)])
            t.close((np.abs(g.grid) ** 2).sum() * vk, (np.abs(data) ** 2).sum() * va, "Parseval sum", rtol=1e-7)
    back = [i for i in range(nd) if four[i]]
    if any(four) and not all(four):
        t.label("mixed spaces")
    if back:
        g.fourier_transform(back, normalize=norm)
    t.close(g.grid, data.astype(complex), "values after the round trip", rtol=1e-8, atol=1e-9 * scale)
    if any(n % 2 for n in spec["n"]):
        t.label("odd cell count")
    if any(n % 2 == 0 for n in spec["n"]):
        t.label("even cell count")
    t.nontrivial(max(spec["n"]) > 2)


@st.composite
def wave_cases(draw):
    spec = draw(grid_specs(max_dim=3, max_cells=200, min_n=2, max_n=9, max_props=1, big=True))
    k = [draw(st.integers(-(n // 2), (n - 1) // 2)) for n in spec["n"]]
    return {"spec": spec, "k": k, "amp": draw(st.sampled_from([1.0, 2.5, 1e-3]))}


def run_wave(case, t):
    """A plane wave has all its power in the one cell whose Fourier axes list its frequency."""
    spec, k = case["spec"], case["k"]
    nd = len(spec["n"])
    g = build(spec)
    ph = np.zeros(spec["n"])
    for i in range(nd):
        f = k[i] / (spec["n"][i] * spec["pix"][i])
        sh = [1] * nd
        sh[i] = spec["n"][i]
        ph = ph + (2 * np.pi * f * (np.arange(spec["n"][i]) * spec["pix"][i])).reshape(sh)
    g.grid = (case["amp"] * np.exp(1j * ph))[..., None]
    g.fourier_transform()
    idx = np.unravel_index(np.argmax(np.abs(g.grid[..., 0])), spec["n"])
    for i in range(nd):
        d = 1 / (spec["n"][i] * spec["pix"][i])
        t.close(float(g.fourier_axes_centers[i][idx[i]]), k[i] * d, f"frequency of the wave along axis {i}", rtol=1e-9, atol=1e-9 * d)
        t.check(g.fourier_axes[i][idx[i]] < k[i] * d < g.fourier_axes[i][idx[i] + 1], f"the frequency lies between the edges of its cell, axis {i}")
    vol = np.prod(np.array(spec["n"]) * np.array(spec["pix"]))
    t.close(abs(g.grid[idx][0]), case["amp"] * vol, "amplitude of the wave", rtol=1e-9)
    t.close(np.sqrt((np.abs(g.grid) ** 2).sum()), case["amp"] * vol, "power outside the wave's cell", rtol=1e-7)
    t.nontrivial(any(k))


CHECKS = [Check("history", cases(), run, quick=24000, thorough=80000), Check("wave", wave_cases(), run_wave, quick=6400, thorough=20000)]
