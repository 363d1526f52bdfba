"""Driver: runs one property's checks against the current tree of /repo.

Parent: copies the package out of the repository's working tree into a scratch
directory (so that data-root files, caches and byte code never touch /repo),
performs the project's own set-up there, and starts one worker process per
shard.  Worker: runs every check of the property under Hypothesis with a seed
derived from VERIF_SEED and the shard number, and reports counts, samples and
shrunk failures as JSON.  Exit 0: held.  Exit 1: VIOLATION printed.  Exit 2:
the check itself failed (no verdict)."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable
sys.path.insert(0, VERIF)


ENDLESS = 100


class Endless(BaseException):
    pass


def module_for(pid):
    return importlib.import_module("props." + pid.lower())


# ---------------------------------------------------------------- worker
def run_worker(a):
    from vlib import hyp  # noqa
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    from vlib.core import Discard, HarnessError, Trace, Violation, jsonable
    import numpy as np
    np.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")

    if hasattr(eng, "MAX_SHRINKING_SECONDS"):
        eng.MAX_SHRINKING_SECONDS = 45
    hyp.set_hypothesis_home_dir(os.path.join(a.scratch, "hyp"))
    if os.environ.get("VERIF_COV"):
        from vlib import cov
        cov.start(os.path.join(a.pkg, "simim") + os.sep, os.environ["VERIF_COV"])
    from vlib import fast
    fast.install()
    import simim
    pkg = os.path.dirname(os.path.abspath(simim.__file__)) + os.sep
    want = os.path.join(a.pkg, "simim") + os.sep
    if pkg != want:
        raise RuntimeError(f"imported {pkg}, expected {want}")
    mod = module_for(a.property)
    if a.shard == 0 or a.replay:
        only_findings = getattr(mod, "FINDINGS", {})
    else:
        only_findings = {}

    def from_simim(exc):
        tb = exc.__traceback__
        while tb is not None:
            if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(pkg):
                return True
            tb = tb.tb_next
        return False

    # cases take milliseconds, some a few seconds; this is processor time, so that a busy machine does not matter
    def give_up(*_):
        raise Endless(f"no result after {ENDLESS} s of processor time")
    import signal
    signal.signal(signal.SIGPROF, give_up)

    def attempt(fn, case, t):
        """Runs fn; turns every failure into Violation or HarnessError."""
        signal.setitimer(signal.ITIMER_PROF, ENDLESS, ENDLESS)
        try:
            return attempt2(fn, case, t)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def attempt2(fn, case, t):
        import contextlib, io
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                return fn(case, t) if case is not None else fn(t)
        except (Violation, HarnessError, Discard):
            raise
        except (hypothesis.errors.HypothesisException, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            where = traceback.extract_tb(e.__traceback__)
            s = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(where[-4:]))
            if from_simim(e):
                raise Violation(f"unexpected {type(e).__name__}: {e} at {s}") from e
            if isinstance(e, Endless):
                raise HarnessError(f"{e} at {s}") from e
            # a file of the case that is not there, or not what it should be, is the code's doing
            product = isinstance(e, OSError) and (type(e) is OSError and e.errno is None or isinstance(e, (
                FileNotFoundError, IsADirectoryError, NotADirectoryError)) and os.path.dirname(a.scratch) in f"{e} {e.filename}")
            if isinstance(e, (OSError, ImportError)) and not product:
                raise HarnessError(f"{type(e).__name__}: {e} at {s}") from e
            raise Violation(f"the result could not be interpreted: {type(e).__name__}: {e} at {s}") from e

    def fresh():
        d = tempfile.mkdtemp(dir=a.scratch)
        return Trace(d), d

    def judge(fn, case):
        t, d = fresh()
        try:
            attempt(fn, case, t)
            return t
        finally:
            shutil.rmtree(d, ignore_errors=True)

    out = {"checks": {}, "violations": [], "errors": [], "findings": {}}
    if a.replay:
        rec = json.load(open(a.replay))
        chk = {c.name: c for c in mod.CHECKS}[rec["check"]]
        try:
            judge(chk.fn, rec["case"])
        except Violation as e:
            out["violations"].append({"check": chk.name, "case": rec["case"], "message": str(e)})
        json.dump(out, open(a.out, "w"))
        return
    for fid, fn in only_findings.items():
        try:
            judge(fn, None)
            out["findings"][fid] = None
        except Violation as e:
            out["findings"][fid] = str(e)
    for chk in mod.CHECKS:
        if a.only and chk.name not in a.only.split(","):
            continue
        total = chk.quick if a.tier == "quick" else chk.thorough
        if a.scale != 1.0:
            total = max(1, int(total * a.scale))
        n = total // a.nshards + (1 if a.shard < total % a.nshards else 0)
        rec = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "discarded": 0, "wall_s": 0}
        out["checks"][chk.name] = rec
        if n == 0:
            continue
        t0 = time.time()
        state = {"fail": None}
        phases = [Phase.generate] + ([] if a.noshrink else [Phase.shrink])
        seed = int(hashlib.sha256(f"{a.seed}:{a.shard}:{chk.name}".encode()).hexdigest()[:12], 16)

        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                  report_multiple_bugs=False, phases=phases, suppress_health_check=list(HealthCheck))
        @given(chk.strategy)
        def body(case):
            case = jsonable(case)
            if state.get("endless"):  # no time to look for a smaller one
                if case == state["fail"][0]:
                    raise Violation(state["fail"][1])
                hypothesis.assume(False)
            try:
                t = judge(chk.fn, case)
            except Violation as e:
                state["fail"] = (case, str(e))
                state["endless"] = isinstance(e.__cause__, Endless)
                raise
            except Discard:
                rec["discarded"] += 1
                hypothesis.assume(False)
            if state["fail"] is None:
                rec["evaluations"] += 1
                for l in set(t.labels):
                    rec["labels"][l] = rec["labels"].get(l, 0) + 1
                if t.nontriv:
                    js = json.dumps(case, sort_keys=True)
                    rec["nontrivial"].append(hashlib.sha256(js.encode()).hexdigest()[:16])
                    if len(rec["samples"]) < 2 and len(js) < 3000 and rec["evaluations"] > 3:
                        rec["samples"].append(case)
        try:
            body()
        except Violation as e:
            case, msg = state["fail"]
            # the shrunk case has to fail again on its own, outside Hypothesis
            again = msg if state.get("endless") else None
            try:
                if not again:
                    judge(chk.fn, case)
            except Violation as e2:
                again = str(e2)
            out["violations"].append({"check": chk.name, "case": case, "message": again or msg, "reproduced": again is not None})
        except hypothesis.errors.Flaky as e:
            if state["fail"]:
                case, msg = state["fail"]
                out["violations"].append({"check": chk.name, "case": case, "message": msg + " (not deterministic)", "reproduced": False})
            else:
                out["errors"].append(f"{chk.name}: flaky: {e}")
        except BaseException as e:
            out["errors"].append(f"{chk.name}: " + "".join(traceback.format_exception(e))[-1500:])
        rec["wall_s"] = round(time.time() - t0, 2)
        rec["nontrivial"] = sorted(set(rec["nontrivial"]))
        if state.get("endless"):
            break
    json.dump(out, open(a.out, "w"))


# ---------------------------------------------------------------- parent
def prepare(scratch, need_root, i=None):
    """One copy of the package; with a data root, one per worker, because the
    package keeps its data root's location among its own files."""
    if i is not None:
        scratch = os.path.join(scratch, f"p{i}")
    pkg = os.path.join(scratch, "pkg")
    src = os.path.join(REPO, "simim")
    shutil.copytree(src, os.path.join(pkg, "simim"), ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "rootpath.txt"))
    env = dict(os.environ)
    env.update(PYTHONPATH=pkg, MPLCONFIGDIR=os.path.join(scratch, "mpl"), MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=scratch)
    os.makedirs(env["MPLCONFIGDIR"])
    if need_root:
        root = os.path.join(scratch, "dataroot")
        os.makedirs(root)
        p = subprocess.run([PY, "-W", "ignore", "-c", "from simim import setupsimim; setupsimim()"],
                           input=f"{root}\ny\n", text=True, env=env, cwd=scratch, capture_output=True, timeout=300)
        if p.returncode:
            raise RuntimeError("set-up failed: " + p.stderr[-800:])
        # the first import with a data root tabulates and caches; do it once
        subprocess.run([PY, "-W", "ignore", "-c", "import simim.galprops"], env=env, cwd=scratch,
                       capture_output=True, timeout=300)
    return pkg, env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--noshrink", action="store_true")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--scratch")
    ap.add_argument("--pkg")
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.worker:
        return run_worker(a)
    tier = "thorough" if a.tier == "thorough" else "quick"
    pid = a.property
    t0 = time.time()
    from vlib import hyp  # noqa
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    code = 2
    try:
        code = drive(a, pid, tier, scratch, t0)
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def drive(a, pid, tier, scratch, t0):
    meta = json.load(open(os.path.join(HERE, "meta.json"))).get(pid, {})
    ns = 1 if a.replay else min(a.shards, meta.get("shards", 8))
    if meta.get("root", False):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(ns) as ex:
            prepared = list(ex.map(lambda i: prepare(scratch, True, i), range(ns)))
    else:
        prepared = [prepare(scratch, False)] * ns
    procs = []
    limit = 850 if tier == "quick" else 4 * 3600
    for i in range(ns):
        wd = os.path.join(scratch, f"w{i}")
        os.makedirs(wd)
        out = os.path.join(scratch, f"out{i}.json")
        pkg, env = prepared[i]
        e = dict(env, TMPDIR=wd)
        cmd = [PY, "-W", "ignore", os.path.join(HERE, "run.py"), pid, "--worker", "--tier", tier, "--seed", str(a.seed),
               "--shard", str(i), "--nshards", str(ns), "--scratch", wd, "--pkg", pkg, "--out", out,
               "--only", a.only, "--scale", str(a.scale)]
        if a.noshrink:
            cmd.append("--noshrink")
        if a.replay:
            cmd += ["--replay", os.path.abspath(a.replay)]
        log = open(os.path.join(scratch, f"log{i}"), "w")
        procs.append((subprocess.Popen(cmd, env=e, cwd=wd, stdout=log, stderr=log, stdin=subprocess.DEVNULL), out, log))
    results, errors = [], []
    for i, (p, out, log) in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append(f"shard {i} ran out of time")
            continue
        log.close()
        if rc or not os.path.exists(out):
            errors.append(f"shard {i} ended with {rc}: " + open(os.path.join(scratch, f"log{i}")).read()[-1500:])
            continue
        results.append(json.load(open(out)))
    viol = [v for r in results for v in r["violations"]]
    for r in results:
        errors += r["errors"]
    # known findings
    kf_path = os.path.join(VERIF, "known_findings.json")
    kf = json.load(open(kf_path)) if os.path.exists(kf_path) else {"known": [], "fixed": []}
    listed = {k["id"]: k for k in kf["known"] if k["property"] == pid}
    found = {}
    for r in results:
        for fid, msg in r["findings"].items():
            found[fid] = msg
    for fid, msg in sorted(found.items()):
        if msg is None:
            continue
        if fid in listed:
            print(f"KNOWN-FINDING: property={pid} {listed[fid]['what_fails']}")
        else:
            viol.append({"check": "finding:" + fid, "case": None, "message": msg, "reproduced": True})
    if a.replay:
        if errors:
            print("\n".join(errors), file=sys.stderr)
            return 2
        for v in viol:
            print(f"replayed: {v['message']}")
            print(f"VIOLATION property={pid} replay={os.path.abspath(a.replay)}")
        return 1 if viol else 0

    # evidence
    checks, labels_all, samples, nontriv, evals = {}, {}, [], 0, 0
    for r in results:
        for name, c in r["checks"].items():
            m = checks.setdefault(name, {"evaluations": 0, "nontrivial": set(), "labels": {}, "discarded": 0, "wall_s": 0})
            m["evaluations"] += c["evaluations"]
            m["nontrivial"].update(c["nontrivial"])
            m["discarded"] += c["discarded"]
            m["wall_s"] = max(m["wall_s"], c["wall_s"])
            for l, k in c["labels"].items():
                m["labels"][l] = m["labels"].get(l, 0) + k
            if c["samples"] and sum(s["check"] == name for s in samples) < 1:
                samples.append({"check": name, "case": c["samples"][0]})
    for name, m in checks.items():
        m["distinct_nontrivial"] = len(m.pop("nontrivial"))
        nontriv += m["distinct_nontrivial"]
        evals += m["evaluations"]
        m["labels"] = dict(sorted(m["labels"].items()))
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv,
                       "rule": meta.get("rule", "cases are drawn by the Hypothesis strategy of each check; see DESIGN.md"),
                       "samples": samples[:12], "per_check": checks, "shards": ns},
          "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": meta.get("assumptions", [])}
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    seen = set()
    for v in viol:
        if v["check"] in seen:
            continue
        seen.add(v["check"])
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", f"{pid}-{v['check'].replace(':', '_')}.json")
        json.dump({"property": pid, "check": v["check"], "case": v["case"], "message": v["message"]}, open(rp, "w"), indent=1)
        print(f"{pid}/{v['check']}: {v['message']}")
        print(f"VIOLATION property={pid} replay={rp}")
    print(f"{pid}: {evals} cases, {nontriv} distinct non-trivial, {len(seen)} violations, {ev['wall_s']} s")
    if os.environ.get("VERIF_LABELS"):
        print(json.dumps(checks, indent=1))
    if errors:
        print("\n".join(errors), file=sys.stderr)
        if not viol:
            return 2
    return 1 if viol else 0


if __name__ == "__main__":
    main()
