"""Building blocks the property modules use.

A property module defines CHECKS, a list of Check(name, strategy, fn, quick,
thorough).  `strategy` is a Hypothesis strategy whose values are JSON-able
cases; fn(case, t) runs the real code on the case and compares it with its
oracle through the Trace `t`.  A module may define FINDINGS: {finding id: fn(t)}
with one pinned reproducer per known, unrepaired defect.
"""
import json
import os
import sys
import numpy as np


class Violation(Exception):
    """The real code disagreed with the oracle."""


class HarnessError(Exception):
    """Something is wrong with the check itself (never a verdict)."""


class Discard(Exception):
    """The case lies outside the domain; counted, not judged."""


class Check:
    def __init__(self, name, strategy, fn, quick=200, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else 20 * quick
        self.rule = rule


class Trace:
    """What one case did: labels for the distribution, non-triviality, and
    the comparison helpers.  `scratch` is a directory for files."""

    def __init__(self, scratch):
        self.labels = []
        self.nontriv = False
        self.scratch = scratch

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, got, want, what):
        if not (type(got) is type(want) or isinstance(got, (int, float, str, tuple, list, np.generic))):
            pass
        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
            self.close(got, want, what, rtol=0, atol=0)
        elif not (got == want):
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}")

    def close(self, got, want, what, rtol=1e-9, atol=0.0, shape=True):
        """Elementwise agreement; nan matches nan; shapes must agree.  atol is
        absolute; pass a scale-aware one where cancellation is possible."""
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object:
                g = g.astype(float)
        except Exception as e:
            raise Violation(f"{what}: result {short(got)} is not numeric ({e})")
        if shape and g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
        with np.errstate(all="ignore"):
            ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            bad = np.argwhere(~ok)
            k = tuple(int(i) for i in bad[0]) if bad.ndim and bad.shape[-1] else ()
            gb = np.broadcast_to(g, ok.shape)
            wb = np.broadcast_to(w, ok.shape)
            raise Violation(f"{what}: {len(bad)} of {ok.size} entries differ, first at {k}: got {gb[k]!r}, expected {wb[k]!r}")

    def raises(self, fn, what, exc=Exception):
        try:
            r = fn()
        except exc:
            return
        raise Violation(f"{what}: accepted, returned {short(r)}")


def short(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def quiet():
    """Silences the code under test's prints and warnings."""
    import contextlib, io, warnings

    @contextlib.contextmanager
    def cm():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                yield
    return cm()
