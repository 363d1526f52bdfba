"""Fault injection: the k-th storage operation (or call of a user's function)
made while it is on fails.  Nothing is written by the operation that fails."""
import contextlib
import os
import h5py
import numpy as np
from h5py._hl.attrs import AttributeManager

KINDS = {"disk full": lambda: OSError(28, "No space left on device (injected)"), "interrupt": lambda: KeyboardInterrupt("injected"), "memory": lambda: MemoryError("injected")}
POINTS = [(h5py.File, "__init__"), (h5py.Group, "create_dataset"), (h5py.Group, "create_group"), (h5py.Group, "__setitem__"), (h5py.Group, "__delitem__"), (h5py.Dataset, "__getitem__"),
          (h5py.Dataset, "__setitem__"), (h5py.Dataset, "resize"), (AttributeManager, "__setitem__")]


class Faults:
    """With at=None only counts; `hit` tells whether the fault was raised."""

    def __init__(self, at=None, kind="disk full"):
        self.at, self.kind = at, kind
        self.count = 0
        self.hit = None
        self.depth = 0

    def point(self, name="call"):
        self.count += 1
        if self.at is not None and self.count == self.at and self.hit is None:
            self.hit = KINDS[self.kind]()
            self.where = name
            raise self.hit

    def wrap(self, fn):
        """A user's function which may fail."""
        def g(*a, **k):
            self.point("user function")
            return fn(*a, **k)
        return g

    def __enter__(self):
        self.old = [(c, n, getattr(c, n)) for c, n in POINTS]
        for c, n, fn in self.old:
            def g(obj, *a, _fn=fn, _n=f"{c.__name__}.{n}", **k):
                if self.depth:  # part of an operation that was counted
                    return _fn(obj, *a, **k)
                self.point(_n)
                self.depth += 1
                try:
                    return _fn(obj, *a, **k)
                finally:
                    self.depth -= 1
            setattr(c, n, g)
        return self

    def __exit__(self, *a):
        for c, n, fn in self.old:
            setattr(c, n, fn)

    def run(self, t, fn, what):
        """Run fn under the fault: True if it completed."""
        try:
            with self:
                fn()
        except BaseException as e:
            x, own = e, False
            while x is not None:
                own = own or x is self.hit
                x = x.__context__
            if self.hit is None or not own:
                raise
            return False
        return True


def tree(path):
    """Everything in a file: {name: (value, attributes)}."""
    out = {}

    def plain(v):
        return v if isinstance(v, np.ndarray) else np.asarray(v)
    if not os.path.exists(path):
        return out
    with h5py.File(path, "r") as f:
        out["/"] = (None, {k: plain(v) for k, v in f.attrs.items()})

        def visit(name):
            o = f[name]
            out[name] = (o[()] if isinstance(o, h5py.Dataset) else None, {k: plain(v) for k, v in o.attrs.items()})
            if not isinstance(o, h5py.Dataset):
                for k in o:
                    visit(name + "/" + k)
        for k in f:
            visit(k)
    return out


def differ(a, b, skip=()):
    """Names whose value or attributes differ between two trees."""
    def eq(x, y):
        if x is None or y is None:
            return x is y
        return x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes() if x.dtype.kind not in "OSU" else np.array_equal(x, y)
    bad = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            bad.append(f"{k} ({'missing' if k in b else 'extra'})")
        elif not eq(a[k][0], b[k][0]):
            bad.append(f"{k} (values)")
        else:
            for n in sorted(set(a[k][1]) | set(b[k][1])):
                if n not in skip and (n not in a[k][1] or n not in b[k][1] or not eq(a[k][1][n], b[k][1][n])):
                    bad.append(f"{k} (attribute {n})")
    return bad
