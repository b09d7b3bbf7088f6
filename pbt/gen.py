"""Generators: every case is a plain JSON value; arrays and PyTrees are
described by specs and built deterministically from them."""
import numpy as np
from hypothesis import strategies as st

# ------------------------------------------------------------------- arrays
seeds = st.integers(0, 2**32 - 1)


def arr(seed, shape, cplx=False, kind="normal", scale=1.0, dtype=None):
    """A deterministic array. kinds: normal; mixed (normal with exact zeros,
    integers, repeated and large values); pos (uniform in [0.1, 1.1))."""
    r = np.random.Generator(np.random.PCG64(seed))

    def one():
        shp = tuple(shape)
        if kind == "pos":
            return r.uniform(0.1, 1.1, shp)
        x = r.standard_normal(shp)
        if kind == "mixed":
            sel = r.integers(0, 6, shp)
            x = np.where(sel == 0, 0.0, x)
            x = np.where(sel == 1, np.round(3 * x), x)
            x = np.where(sel == 2, 20 * x, x)
        return x

    x = one()
    if cplx:
        x = x + 1j * one()
    x = np.asarray(x * scale)
    if dtype is not None:
        x = x.astype(dtype)
    return x


def herm(seed, shape, cplx=True, scale=1.0):
    x = arr(seed, shape, cplx, scale=scale)
    return (x + np.conj(np.swapaxes(x, -1, -2))) / 2


def jarr(*a, **k):
    import jax.numpy as jnp

    return jnp.asarray(arr(*a, **k))


# ------------------------------------------------------------------- PyTrees
# spec: {"t": "leaf", ...} | {"t": "list"|"tuple", "c": [...]}
#       | {"t": "dict", "k": [...], "c": [...]}
KEYS = ["a", "b", "c", "x", "y", "z", "out", "in1", "0", "10", "2", "Zed"]


def trees(leaf, max_leaves=5, min_leaves=1, kinds=("list", "tuple", "dict"),
          keys=KEYS, allow_leaf=True, depth=3):
    """PyTree specs, by recursive construction."""

    @st.composite
    def tree(draw, budget, d):
        if budget <= 1 or d == 0:
            bare = True
        else:
            bare = draw(st.booleans()) if d < depth else (
                allow_leaf and draw(st.integers(0, 5)) == 5
            )
        if bare and (allow_leaf or d < depth):
            return draw(leaf)
        kind = draw(st.sampled_from(kinds))
        n = min(budget, draw(st.sampled_from([2, 3, 1, 2, 4] if d == depth else [1, 2, 3, 4])))
        if kind == "dict":
            n = min(n, len(keys))
        cs = []
        left = budget
        for i in range(n):
            cs.append(draw(tree(max(1, left - (n - 1 - i)), d - 1)))
            left -= count_leaves(cs[-1])
            if left <= 0:
                break
        out = {"t": kind, "c": cs}
        if kind == "dict":
            out["k"] = draw(
                st.lists(st.sampled_from(list(keys)), unique=True,
                         min_size=len(cs), max_size=len(cs))
            )
        return out

    @st.composite
    def top(draw):
        lo = max(min_leaves, (max_leaves + 1) // 2)
        n = draw(st.sampled_from(list(range(lo, max_leaves + 1)) + [max_leaves, min_leaves]))
        t = draw(tree(n, depth))
        return t

    s = top()
    if min_leaves > 1:
        s = s.filter(lambda t: count_leaves(t) >= min_leaves)
    return s


def is_leaf(t):
    return t["t"] == "leaf"


def count_leaves(t):
    return 1 if is_leaf(t) else sum(count_leaves(c) for c in t["c"])


def build(t, f, path=()):
    """Instantiate the spec, f(leaf_spec, path) gives each leaf."""
    if is_leaf(t):
        return f(t, path)
    if t["t"] == "dict":
        return {
            k: build(c, f, path + (k,)) for k, c in zip(t["k"], t["c"])
        }
    out = [build(c, f, path + (i,)) for i, c in enumerate(t["c"])]
    return out if t["t"] == "list" else tuple(out)


def leaf_specs(t, path=()):
    """(path, leaf spec) in PyTree flattening order: sequences by position,
    dictionaries by sorted key."""
    if is_leaf(t):
        return [(path, t)]
    if t["t"] == "dict":
        items = sorted(zip(t["k"], t["c"]), key=lambda kc: kc[0])
    else:
        items = list(enumerate(t["c"]))
    return [ls for k, c in items for ls in leaf_specs(c, path + (k,))]


def flat(x, is_leaf_fn=lambda v: not isinstance(v, (list, tuple, dict))):
    """Independent flattening of lists/tuples/dicts, (path, leaf) pairs."""
    if is_leaf_fn(x):
        return [((), x)]
    if isinstance(x, dict):
        items = [(k, x[k]) for k in sorted(x)]
    else:
        items = list(enumerate(x))
    return [((k,) + p, v) for k, c in items for p, v in flat(c, is_leaf_fn)]


def tmap(f, x, *rest):
    """Independent tree map over lists/tuples/dicts."""
    if isinstance(x, dict):
        return {k: tmap(f, x[k], *[r[k] for r in rest]) for k in x}
    if isinstance(x, (list, tuple)):
        out = [tmap(f, *v) for v in zip(x, *rest)]
        return out if isinstance(x, list) else tuple(out)
    return f(x, *rest)


def same_struct(a, b):
    """Same containers (types, keys, lengths) around the leaves."""
    if isinstance(a, dict) or isinstance(b, dict):
        return (
            isinstance(a, dict) and isinstance(b, dict)
            and set(a) == set(b) and all(same_struct(a[k], b[k]) for k in a)
        )
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (
            isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))
            and isinstance(a, list) == isinstance(b, list)
            and len(a) == len(b)
            and all(same_struct(p, q) for p, q in zip(a, b))
        )
    return True


def leaf_shape(max_ndim=3, max_dim=4, min_ndim=1):
    return st.lists(st.integers(1, max_dim), min_size=min_ndim,
                    max_size=max_ndim)


def leaf_of(**fields):
    return st.fixed_dictionaries({"t": st.just("leaf"), **fields})


wraps = st.lists(st.sampled_from(["list", "tuple", "dict"]), max_size=2)


def wrap(x, kinds):
    """Put x into nested one-element containers."""
    for k in kinds:
        x = [x] if k == "list" else (x,) if k == "tuple" else {"w": x}
    return x


def unwrap(x, kinds):
    """Inverse of wrap; checks the containers on the way."""
    from .core import expect

    for k in reversed(kinds):
        if k == "dict":
            expect(isinstance(x, dict) and list(x) == ["w"],
                   f"PyTree structure not preserved, expected dict: {x!r:.200}")
            x = x["w"]
        else:
            expect(
                isinstance(x, list if k == "list" else tuple) and len(x) == 1,
                f"PyTree structure not preserved, expected {k}: {x!r:.200}")
            x = x[0]
    return x
