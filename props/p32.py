"""P32: downloads fetch exactly what is missing and nothing incomplete passes for complete."""
import json
import os
import signal
import warnings
import numpy as np
from vlib.hyp import st
from vlib.core import Check, Violation
from vlib.web import Web
from simim.siminterface import IllustrisCatalogs, UchuuCatalogs, UniversemachineCatalogs
import simim

BASE = "https://halos.as.arizona.edu/UniverseMachine/DR1/"
UM = {"UniverseMachine-BolshoiPlanck": (BASE + "SFR_ASCII/", 178, "txt"), "UniverseMachine-SMDPL": (BASE + "SMDPL_SFR/", 118, "bin"), "UniverseMachine-MDPL2": (BASE + "MDPL2_SFR/", 126, "bin")}
UCHUU = "https://skun.iaa.csic.es/SUsimulations/UchuuDR2/Uchuu_UM/"
ILL = {"TNG100-1": ("fof_subhalo_tab_", 100), "Illustris-2-Dark": ("groups_", 136), "TNG300-2-Dark": ("fof_subhalo_tab_", 100), "Illustris-1": ("groups_", 136)}
FAULTS = st.lists(st.sampled_from([None, None, None, "short", "reset", "refuse", "missing"]), max_size=5)


@st.composite
def cases(draw):
    sim = draw(st.sampled_from(sorted(UM) + ["UniverseMachine-uchuu"] * 3 + sorted(ILL) + ["_testbox"]))
    top = UM[sim][1] if sim in UM else 46 if "uchuu" in sim else ILL[sim][1] if sim in ILL else 3
    snap = st.one_of(st.integers(0, 4), st.integers(top - 4, top + 1), st.integers(0, top - 1)) if top > 3 else st.integers(0, 3)
    snaps = st.lists(snap, min_size=1, max_size=4)
    op = st.one_of(st.tuples(st.just("open"), snaps), st.tuples(st.just("download"), st.booleans(), FAULTS, st.one_of(st.none(), st.none(), st.lists(st.integers(1, 12), min_size=1, max_size=4, unique=True))),
                   st.tuples(st.just("download"), st.just(False), FAULTS, st.none()), st.tuples(st.just("remove"), st.integers(0, 30)), st.tuples(st.just("own"), st.integers(0, 30)), st.tuples(st.just("server")), st.tuples(st.just("meta")))
    ops = [["open", draw(snaps)]] + [list(o) for o in draw(st.lists(op, min_size=2, max_size=9))]
    if sim in ILL and draw(st.booleans()):  # all, then some files lost
        ops[1:1] = [["meta"], ["download", False, [], None]]
        ops += [["remove", draw(st.integers(0, 30))], ["download", False, [], None]]
    return {"sim": sim, "place": draw(st.sampled_from(["sim", "sim", "my data", "data1", "x data1 y"])), "nfiles": draw(st.integers(1, 3)), "listing": draw(st.lists(st.sampled_from(["empty", "refuse", "missing"]), max_size=2)), "shuffle": draw(st.booleans()), "ops": ops}


def html(names):
    """As a web server lists a directory."""
    rows = "".join(f'<tr><td valign="top"><img src="/icons/unknown.gif" alt="[   ]"></td><td><a href="{n}">{n}</a></td><td align="right">2019-05-01 10:00  </td><td align="right">1.0G</td></tr>\n' for n in names)
    return f'<html><head><title>Index of /</title></head><body><h1>Index of /</h1><table><tr><td><a href="../">Parent Directory</a></td></tr>\n{rows}</table></body></html>'.encode()


class Runaway(BaseException):
    pass


def within(seconds, fn):
    """Calls fn; raises a violation if it does not come to an end."""
    late = []

    def ring(*a):
        late.append(1)
        raise Runaway()
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1)
    try:
        fn()
    except Runaway:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if late:
        raise Violation(f"a download has not come to an end after {seconds} s")


def run(case, t):
    sim = case["sim"]
    web = Web(os.path.join(t.scratch, "web"))
    os.makedirs(web.folder)
    folder = os.path.join(web.folder, case["place"])
    os.makedirs(folder)
    raw = os.path.join(folder, "raw")
    what = f"{sim} in folder '{case['place']}'"
    ill, uchuu = sim in ILL, "uchuu" in sim
    version, listing = [1], None
    packed = os.path.join(os.path.dirname(os.path.abspath(simim.__file__)), "resources", "_testbox")
    if sim in UM:
        base, top, ext = UM[sim]
        names = [f"sfr_catalog_{0.055623 + (1 - 0.055623) * i / (top - 1):.6f}.{ext}" for i in range(top)]
        listing = base
    elif uchuu:
        base, top = UCHUU, 46
        zs = [round(14 * (1 - i / 45)**2 * 100) for i in range(top)]
        names = [f"Uchuu_UM_z{z // 100}p{z % 100:02d}_data1.h5" for z in zs]
        listing = base + "SFR/"
    elif ill:
        prefix, top = ILL[sim]
    else:
        top, names = 3, ["sfr_catalog_0.055623.txt", "sfr_catalog_0.506185.txt", "sfr_catalog_0.994717.txt"]

    def files(snap, datafiles):
        """{path below raw: where it comes from}"""
        if ill:
            return {f"groups_{snap:03d}/{prefix}{snap:03d}.{j}.hdf5": None for j in range(case["nfiles"])}
        if uchuu:
            return {names[snap].replace("data1", f"data{d}"): base + ("SFR/" if d <= 3 else "SFH/") + names[snap].replace("data1", f"data{d}") for d in datafiles or (1, 2, 3)}
        return {names[snap]: None if sim == "_testbox" else base + names[snap]}

    def content(path):
        return f"version {version[0]} of {os.path.basename(path)} ".encode() * 50

    def publish():
        if ill:
            web.wget["pages"] = {f"http://www.tng-project.org/api/{sim}/files/groupcat-{s}/?format=api": {os.path.basename(p): content(p).decode() for p in files(s, None)} for s in range(top)}
            return
        if sim == "_testbox":
            return
        shown = [n.replace("data1", f"data{d}") for n in names for d in (1, 2, 3)] if uchuu else list(names)
        if uchuu and case["shuffle"]:
            shown = sorted(shown)
        web.pages[listing] = html(shown)
        for s in range(top):
            for p, url in files(s, range(1, 13)).items():
                web.pages[url] = content(p)

    def make(snaps):
        if ill:
            return IllustrisCatalogs(sim, "my-key", path=folder, snaps=snaps, updatepath=False)
        return (UchuuCatalogs if uchuu else UniversemachineCatalogs)(sim, path=folder, snaps=snaps, updatepath=False)

    def on_disk():
        out = {}
        for d, _, fs in os.walk(raw):
            for f in fs:
                p = os.path.join(d, f)
                out[os.path.relpath(p, raw)] = open(p, "rb").read()
        return out
    model, cat, fetched, unavailable = {}, None, 0, list(case["listing"])
    publish()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op in case["ops"]:
            if op[0] == "open":
                some = sorted({s for s in op[1] if s < top and not (sim == "Illustris-1" and s in (53, 55))})
                if not some:
                    continue
                snaps = some
                while not ill and sim != "_testbox" and unavailable and cat is None:
                    bad = unavailable.pop()
                    keep = web.pages[listing]
                    if bad == "refuse":
                        web.faults = ["refuse"]
                    elif bad == "empty":
                        web.pages[listing] = html([])
                    else:
                        del web.pages[listing]
                    with web.serving():
                        t.raises(lambda: make(op[1]), f"{what}: list of files not available ({bad})", ValueError)
                    web.faults, web.pages[listing] = [], keep
                web.log.clear()
                with web.serving():
                    cat = make(op[1])
                if not ill:
                    t.check(list(web.log) in ([], [listing]), f"{what}: on opening, asked for {web.log}")
                t.check([int(s) for s in cat.snaps] == snaps, f"{what}: snapshots {cat.snaps} of {op[1]}")
            elif cat is None:
                continue
            elif op[0] == "server":
                version[0] += 1
                publish()
            elif op[0] == "meta":
                if ill:
                    api = f"http://www.tng-project.org/api/{sim}/"
                    web.pages[api] = json.dumps({"name": sim, "boxsize": 75000.0, "num_snapshots": top, "cosmology": "X", "omega_0": .3, "omega_L": .7, "omega_B": .05, "hubble": .7, "num_files_groupcat": case["nfiles"]}).encode()
                    web.pages[api + "snapshots"] = json.dumps([{"number": s, "redshift": (top - s) / 20} for s in range(top)]).encode()
                    with web.serving():
                        cat.download_meta()
                    t.label("metadata")
            elif op[0] in ("remove", "own"):
                have = sorted(model)
                if have:
                    p = have[op[1] % len(have)]
                    if op[0] == "remove":
                        os.remove(os.path.join(raw, p))
                        del model[p]
                    else:
                        model[p] = b"my own copy"
                        with open(os.path.join(raw, p), "wb") as f:
                            f.write(model[p])
            else:
                _, again, faults, datafiles = op
                datafiles = datafiles if uchuu else None
                known = cat.metadata is not None
                want = {}
                for s in snaps:
                    want.update(files(s, datafiles))
                before = on_disk()
                t.check(before == model, f"{what}: raw data changed without a download")
                todo = {p for p in want if again or p not in model}
                if ill and not known:  # only the first file tells
                    todo = {p for s in snaps for p in files(s, None) if again or (f"groups_{s:03d}/{prefix}{s:03d}.0.hdf5" not in model and p not in model)}
                web.log.clear()
                web.faults = list(faults)
                web.wget["stops"] = [None if f in (None, "missing") else 0 if f == "refuse" else 1 for f in faults] if known else []
                kw = {} if datafiles is None else {"datafiles": datafiles}
                error = []

                def go():
                    try:
                        cat.download(redownload=again, **kw)
                    except Exception as e:
                        error.append(e)
                with web.serving():
                    within(20, go)
                faulty = any(f is not None for f in faults[:len(todo)]) and not ill and sim != "_testbox" and todo
                if error and not faulty:
                    raise error[0]
                now = on_disk()
                w = f"{what}: download({'again' if again else ''}{datafiles or ''}) of snapshots {snaps} holding {sorted(model)}"
                for p in sorted(set(now) | set(model) | set(want)):
                    got = now.get(p)
                    if p not in want:
                        if p in model:
                            t.check(got == model[p], f"{w}: {p}, not asked for, was changed or removed")
                        continue
                    new = open(os.path.join(packed, p), "rb").read() if sim == "_testbox" else content(p)
                    if p not in todo:
                        t.check(got == model.get(p), f"{w}: {p}, there already, was changed")
                    elif faulty and error:
                        t.check(got in (new, model.get(p)), f"{w} with faults {faults}: {p} holds {None if got is None else got[:60]} ({None if got is None else len(got)} bytes), which is neither what it was nor complete")
                    else:
                        t.check(got == new, f"{w} with faults {faults}: {p} holds {None if got is None else got[:60]} rather than the {len(new)} bytes of the server's version {version[0]}")
                if not ill:
                    for f in ("meta.npy", "meta_snaps.npy"):  # formatted snapshots cannot be made without these
                        t.check(error or os.path.isfile(os.path.join(folder, f)), f"{w}: afterwards there is no metadata ({f})")
                if ill:
                    log = web.wget_log()
                    t.check(not any(x.startswith("STRAY") for x in log), f"{w}: {log}")
                    asked = [json.loads(x) for x in log]
                    t.check(all(any("my-key" in h for h in x[2]) for x in asked), f"{w}: asked without the key: {asked}")
                    t.check({int(x[0].split("groupcat-")[1].split("/")[0]) for x in asked} == {int(p[7:10]) for p in todo}, f"{w}: asked for {asked}")
                else:
                    urls = {want[p] for p in todo}
                    asked = set(web.log) - {listing} if sim != "_testbox" else set()
                    t.check(asked <= urls and (error or sim == "_testbox" or asked == urls), f"{w}: asked for {sorted(asked)}, missing are {sorted(map(str, urls))}")
                fetched += bool(todo)
                model = {p: v for p, v in now.items() if p in model or p in want}
                for p in set(now) - set(model):
                    os.remove(os.path.join(raw, p))
                web.faults = []
                t.label("fault" if faulty and error else "fetched" if todo else "nothing to fetch")
    t.label(sim)
    t.nontrivial(fetched and (len(case["ops"]) > 2))


CHECKS = [Check("download", cases(), run, quick=1280, thorough=60000)]
