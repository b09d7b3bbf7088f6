"""Declaring sub-checks, oracles' verdicts, and classification of failures."""
import hashlib
import json
import traceback

import numpy as np


class Violation(Exception):
    """The property does not hold for the case at hand."""


class Discard(Exception):
    """The case turned out to be outside the domain (counted, not evaluated)."""


def fail(msg):
    raise Violation(msg)


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Ctx:
    """Per-case bookkeeping."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.note = None

    def mark(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)

    def label(self, *names):
        self.labels.extend(names)


class Sub:
    def __init__(self, name, fn, strategy, quick, thorough, shards):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.shards = quick, thorough, shards


class Check:
    """All sub-checks of one property."""

    def __init__(self, prop, rule):
        self.prop, self.rule, self.subs = prop, rule, {}

    def sub(self, name, strategy, quick, thorough=None, shards=None):
        def deco(fn):
            self.subs[name] = Sub(
                name, fn, strategy, quick, thorough or quick * 12, shards
            )
            return fn

        return deco


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def in_sut(exc):
    """Does the exception come out of the code under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if "parametricmatrixmodels" in fr.filename:
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(sub, case):
    """Run one case. Returns ctx; raises Violation, Discard or anything else
    (harness error)."""
    ctx = Ctx()
    try:
        sub.fn(case, ctx)
    except (Violation, Discard):
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        if isinstance(e, (ImportError, NameError)) and not in_sut(e):
            raise  # a slip of the harness
        if in_sut(e):
            raise Violation(
                f"valid input makes the code raise {type(e).__name__}: "
                f"{str(e)[:600]}"
            ) from e
        # The oracles never raise on results of the right kind (that is
        # checked on the unchanged tree at many seeds), so this is a result of
        # the wrong kind: wrong type, structure, rank, ...
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(
            "the result has the wrong form, the oracle cannot evaluate it: "
            f"{type(e).__name__}: {str(e)[:400]} ({tb.filename}:{tb.lineno})"
        ) from e
    return ctx


# ---------------------------------------------------------------- comparison
def same(a, b):
    """Bit-for-bit equality of arrays (shape, dtype and values, NaN == NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    return (
        a.shape == b.shape
        and a.dtype == b.dtype
        and np.array_equal(a, b, equal_nan=np.issubdtype(a.dtype, np.inexact))
    )


def near(a, b):
    """Equality of arrays up to rounding (shape, dtype, non-finite entries
    alike)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if not np.issubdtype(a.dtype, np.inexact):
        return np.array_equal(a, b)
    ok = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(a[~ok], b[~ok], equal_nan=True):
        return False
    tol = 256 * np.finfo(a.dtype).eps * max(np.abs(a[ok]).max(initial=0), np.abs(b[ok]).max(initial=0))
    return bool(np.all(np.abs(a[ok] - b[ok]) <= tol))


def close(a, b, rtol=1e-9, atol=1e-9, what="value"):
    a, b = np.asarray(a), np.asarray(b)
    expect(
        a.shape == b.shape,
        lambda: f"{what}: shape {a.shape}, expected {b.shape}",
    )
    if a.size == 0:
        return
    bad = ~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    expect(
        not bad.any(),
        lambda: f"{what}: differs from the reference at "
        f"{[int(i) for i in np.argwhere(bad)[0]]}: got {a[bad].ravel()[0]!r}, "
        f"expected {b[bad].ravel()[0]!r}",
    )
