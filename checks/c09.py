"""C09 PyTree utilities."""
import math

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Check, close, expect, fail, same
from pbt.gen import arr, seeds
from pbt.sut import np_tree, to_jax
from parametricmatrixmodels import tree_util as T

from .c07 import agree

CHECK = Check(
    "C09",
    "random PyTrees of arrays of mixed ranks, sizes and dtypes, random string "
    "paths, slices, axes and permutations; oracles are independent numpy "
    "implementations over the flattened tree; non-trivial: at least two leaves "
    "or a path of length two",
)

SEP = st.sampled_from([".", "/", "::"])
LEAF = gen.leaf_of(s=st.lists(st.integers(1, 4), max_size=3), cplx=st.booleans())
TREE = gen.trees(LEAF, max_leaves=4)


def mk(t, seed, lead=(), kind="normal"):
    n = [0]

    def f(s, p):
        n[0] += 1
        return arr(seed + n[0], (*lead, *s["s"]), s["cplx"], kind)

    return gen.build(t, f)


def _at(v, p):
    for k in p:
        v = v[k]
    return v


# ------------------------------------------------------------------ paths
@CHECK.sub("getset", st.fixed_dictionaries(dict(
    t=gen.trees(LEAF, max_leaves=7, depth=4), sep=SEP, pick=seeds, tail=st.sampled_from([[], ["a"], ["0", "b"]]))), 600)
def getset(c, ctx):
    n = [0]

    def f(s, p):
        n[0] += 1
        return n[0]

    x = gen.build(c["t"], f)
    sep = c["sep"]
    # every node, leaf or not
    nodes = [()]

    def walk(v, p):
        items = v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, (list, tuple)) else []
        for k, w in items:
            nodes.append(p + (k,))
            walk(w, p + (k,))

    walk(x, ())
    nodes += [q for q in nodes if len(q) > 1]  # more often
    p = nodes[np.random.default_rng(c["pick"]).integers(len(nodes))]
    ref = x
    for k in p:
        ref = ref[k]
    path = sep.join(str(k) for k in p)
    got = T.getitem_by_strpath(x, path, separator=sep)
    expect(got == ref and type(got) is type(ref), f"{path!r} of {x} is {got!r}, expected {ref!r}")
    got, rem = T.getitem_by_strpath(x, path, separator=sep, allow_early_return=True, return_remainder=True)
    expect(got == ref and rem == "", f"remainder {rem!r} of a complete path")
    # beyond a leaf
    leaves = [q for q, _ in gen.flat(x)]
    q = leaves[np.random.default_rng(c["pick"]).integers(len(leaves))]
    full = sep.join([str(k) for k in q] + c["tail"])
    if full:
        got, rem = T.getitem_by_strpath(x, full, separator=sep, allow_early_return=True, return_remainder=True)
        want = dict((a, b) for a, b in gen.flat(x))[q]
        expect(got == want and rem == sep.join(c["tail"]), f"{full!r}: got {got!r}, {rem!r}")
        if c["tail"]:
            try:
                T.getitem_by_strpath(x, full, separator=sep)
                fail(f"path {full!r} beyond a leaf accepted")
            except (TypeError, KeyError, IndexError, ValueError):
                pass
    # nodes that the caller declares to be leaves are not entered
    inner = [q for q in nodes if q and isinstance(_at(x, q), (list, tuple, dict))]
    if inner:
        q = inner[c["pick"] % len(inner)]
        node = _at(x, q)
        below = [r for r in nodes if len(r) > len(q) and r[:len(q)] == q]
        r = below[(c["pick"] // 7) % len(below)]
        full = sep.join(str(k) for k in r)
        got, rem = T.getitem_by_strpath(x, full, separator=sep, allow_early_return=True, return_remainder=True,
                                        is_leaf=lambda v: v is node)
        expect(got is node and rem == sep.join(str(k) for k in r[len(q):]), f"{full!r} with a leaf at {q}: got {got!r}, {rem!r}")
        try:
            T.getitem_by_strpath(x, full, separator=sep, is_leaf=lambda v: v is node)
            fail(f"path {full!r} beyond the declared leaf {q} accepted")
        except (TypeError, KeyError, IndexError, ValueError):
            pass
    # set changes exactly that node
    if p:
        y = gen.build(c["t"], lambda s, p: None)
        n[0] = 0
        y = gen.build({**c["t"]}, f)
        parent = y
        for k in p[:-1]:
            parent = parent[k]
        if not isinstance(parent, tuple):
            T.setitem_by_strpath(y, path, "new", separator=sep)
            par2 = x
            for k in p[:-1]:
                par2 = par2[k]
            par2[p[-1]] = "new"
            expect(y == x, f"setting {path!r} gave {y}, expected {x}")
    ctx.mark(len(p) > 1)


@CHECK.sub("extend", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(), max_leaves=4, keys=["a", "b", "c"]), sep=SEP, fill=st.sampled_from(["each", "one", "none"]),
    more=gen.trees(gen.leaf_of(), max_leaves=3, keys=["a", "b", "c"], allow_leaf=False),
    base=st.sampled_from(["none", "tree", "grow"]), pick=seeds)), 700)
def extend(c, ctx):
    """The tree built from paths has exactly those leaves; an extended tree
    keeps its own."""
    sep = c["sep"]
    if c["base"] == "grow":
        # add keys to a random container of a random tree (tuples keep their type)
        n = [0]

        def f(s, p):
            n[0] += 1
            return n[0]

        base = gen.build(c["more"], f)
        ref = gen.build(c["more"], lambda s, p: None)
        n[0] = 0
        conts = []

        def walk(v, p):
            if isinstance(v, (list, tuple, dict)):
                conts.append(p)
                for k, w in (v.items() if isinstance(v, dict) else enumerate(v)):
                    walk(w, p + (k,))

        walk(base, ())
        targets = [conts[(c["pick"] + i) % len(conts)] for i in range(min(2, len(conts)))]
        paths, fills = [], []
        ref = gen.build(c["more"], f)

        def get(v, p):
            for k in p:
                v = v[k]
            return v

        added = {}
        for i, p in enumerate(dict.fromkeys(targets)):
            node = get(base, p)
            k = "new" if isinstance(node, dict) else len(node)
            paths.append(sep.join(str(q) for q in p + (k,)))
            fills.append(f"v{i}")
            added[p] = (k, f"v{i}")

        def rebuild(v, p):
            if isinstance(v, dict):
                out = {k: rebuild(w, p + (k,)) for k, w in v.items()}
                if p in added:
                    out[added[p][0]] = added[p][1]
                return out
            if isinstance(v, (list, tuple)):
                out = [rebuild(w, p + (i,)) for i, w in enumerate(v)]
                if p in added:
                    out.append(added[p][1])
                return type(v)(out)
            return v

        want = rebuild(ref, ())
        got = T.extend_structure_from_strpaths(base, paths, separator=sep, fill_values=fills)
        expect(got == want and gen.same_struct(got, want), f"{ref} extended by {paths} gave {got}, expected {want}")
        ctx.mark()
        ctx.label("grow")
        return
    # containers made from scratch: integer keys make lists, others dicts
    t = c["more"]
    want_struct = gen.build(t, lambda s, p: p)
    want_struct = _nolist(want_struct)
    items = gen.flat(want_struct)
    r = np.random.default_rng(c["pick"])
    r.shuffle(items)
    paths = [sep.join(str(k) for k in p) for p, _ in items]
    fills = {"each": [v for _, v in items], "one": 42, "none": None}[c["fill"]]
    fills = [str(v) for v in fills] if c["fill"] == "each" else fills
    base = None
    if c["base"] == "tree":
        base = {} if isinstance(want_struct, dict) else []
    got = T.extend_structure_from_strpaths(base, paths, separator=sep, fill_values=fills)
    val = {p: (fills[i] if c["fill"] == "each" else fills) for i, (p, _) in enumerate(items)}
    want = _rebuild(want_struct, lambda p: val[p])
    expect(got == want and gen.same_struct(got, want), f"{paths} gave {got}, expected {want}")
    ctx.mark(len(paths) > 1)
    ctx.label(c["fill"], c["base"])


@CHECK.sub("conflict", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(), max_leaves=4, keys=["a", "b", "c"], allow_leaf=False), sep=SEP, pick=seeds,
    tail=st.sampled_from([["a"], ["0"], ["a", "b"], ["1", "a"]]), fill=st.sampled_from(["v", 7, None]))), 120)
def conflict(c, ctx):
    """A path that leads through an existing value is refused: growing a tree
    never drops what it holds."""
    n = [0]

    def f(s, p):
        n[0] += 1
        return f"x{n[0]}"

    base = gen.build(c["t"], f)
    have = gen.flat(base)
    path = c["sep"].join([str(k) for k in have[c["pick"] % len(have)][0]] + c["tail"])
    try:
        got = T.extend_structure_from_strpaths(base, [path], separator=c["sep"], fill_values=[c["fill"]])
    except Exception:  # noqa: BLE001
        ctx.mark()
        return
    kept = [v for _, v in gen.flat(got)]
    expect(all(v in kept for _, v in have), f"extending by {path!r} dropped a value: {have} became {got}")


def _nolist(x):
    if isinstance(x, dict):
        return {k: _nolist(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], (list, tuple, dict)):
        return [_nolist(v) for v in x]
    return "leaf"


def _rebuild(x, f, p=()):
    if isinstance(x, dict):
        return {k: _rebuild(v, f, p + (k,)) for k, v in x.items()}
    if isinstance(x, list):
        return [_rebuild(v, f, p + (i,)) for i, v in enumerate(x)]
    return f(p)


# ------------------------------------------------------------- arithmetic
UN = {
    "neg": lambda x: -x, "abs": np.abs, "abs_sqr": lambda x: np.abs(x) ** 2,
    "abs_sqrt": lambda x: np.sqrt(np.abs(x)), "sqrt": lambda x: np.sqrt(x.astype(complex)) if np.iscomplexobj(x) else np.sqrt(np.abs(x)),
}
BIN = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide}


@CHECK.sub("arithmetic", st.fixed_dictionaries(dict(
    t=TREE, seed=seeds, f=st.sampled_from([*UN, *BIN, "pow", "mean", "scalar_add", "scalar_mul"]),
    e=st.sampled_from([2, 3, 0.5, -1, 1, 2.5, 3.5, -0.5]), s=st.sampled_from([2.5, -1, 0, 3]), uniform=st.booleans())), 700)
def arithmetic(c, ctx):
    f = c["f"]
    t = c["t"]
    x = mk(t, c["seed"])
    if f == "sqrt" or f == "pow":
        x = gen.tmap(lambda v: v if np.iscomplexobj(v) else np.abs(v) + 0.1, x)
    jx = to_jax(x)
    if f in UN:
        got, ref = getattr(T, f)(jx), gen.tmap(UN[f], x)
    elif f in BIN:
        y = mk(t, c["seed"] + 77)
        got, ref = getattr(T, f)(jx, to_jax(y)), gen.tmap(BIN[f], x, y)
    elif f == "pow":
        got, ref = T.pow(jx, c["e"]), gen.tmap(lambda v: np.power(v, c["e"]), x)
    elif f == "mean":
        lv = [v for _, v in gen.flat(x)]
        got = T.mean(jx)
        ref = sum(v.sum() for v in lv) / sum(v.size for v in lv)
    elif f == "scalar_add":
        got, ref = T.scalar_add(jx, c["s"]), gen.tmap(lambda v: v + c["s"], x)
    else:
        got, ref = T.scalar_mul(jx, c["s"]), gen.tmap(lambda v: v * c["s"], x)
    agree(got, ref, f)
    ctx.mark(gen.count_leaves(t) > 1)
    ctx.label(f)


# --------------------------------------------------------------- batching
@CHECK.sub("batches", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(s=st.lists(st.integers(1, 3), max_size=2), cplx=st.booleans()), max_leaves=3),
    seed=seeds, n=st.integers(1, 9), size=st.integers(1, 9), i=st.integers(0, 5), axis=st.sampled_from([0, 0, 1]),
    use=st.sampled_from(["split", "batch", "concat"]))), 500)
def batches(c, ctx):
    n, size, ax = c["n"], c["size"], c["axis"]
    lead = (n,) if ax == 0 else (2, n)
    x = mk(c["t"], c["seed"], lead)
    jx = to_jax(x)
    take = lambda v, a, b: np.take(v, np.arange(a, b), axis=ax)  # noqa: E731
    if c["use"] == "split":
        size = min(size, n)
        a, b = T.pytree_split(jx, size, axis=ax)
        k = n // size
        ref = gen.tmap(lambda v: np.stack([take(v, j * size, (j + 1) * size) for j in range(k)]), x)
        for (p, v), (_, w) in zip(gen.flat(np_tree(a)), gen.flat(ref)):
            expect(same(v, w), f"split part at {p} differs")
        expect(gen.same_struct(np_tree(a), ref), "structure")
        if n % size:
            ref = gen.tmap(lambda v: take(v, k * size, n), x)
            expect(b is not None and gen.same_struct(np_tree(b), ref), "remainder missing")
            for (p, v), (_, w) in zip(gen.flat(np_tree(b)), gen.flat(ref)):
                expect(same(v, w), f"remainder at {p} differs")
        else:
            expect(b is None, "remainder where there is none")
    elif c["use"] == "batch":
        size = min(size, n)
        i = c["i"] % (n // size)
        ln = None if c["seed"] % 2 else min(size, 1 + c["seed"] % 3)
        got = T.batch_leaves(jx, size, i, length=ln, axis=ax)
        ref = gen.tmap(lambda v: take(v, i * size, i * size + (ln or size)), x)
        for (p, v), (_, w) in zip(gen.flat(np_tree(got)), gen.flat(ref)):
            expect(same(v, w), f"batch at {p} differs")
    else:
        parts = [mk(c["t"], c["seed"] + 5 * j, (m,) if ax == 0 else (2, m)) for j, m in enumerate([n, size, 1][:1 + c["i"] % 3])]
        got = T.concatenate([to_jax(q) for q in parts], axis=ax)
        ref = gen.tmap(lambda *v: np.concatenate(v, axis=ax), *parts)
        expect(gen.same_struct(np_tree(got), ref), "structure")
        for (p, v), (_, w) in zip(gen.flat(np_tree(got)), gen.flat(ref)):
            expect(same(v, w), f"concatenation at {p} differs")
    ctx.mark(n > 1)
    ctx.label(c["use"])


@CHECK.sub("permute", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(s=st.lists(st.integers(1, 3), max_size=2), cplx=st.booleans()), max_leaves=4),
    seed=seeds, n=st.integers(1, 12), ind=st.booleans())), 300)
def permute(c, ctx):
    """Rows stay together across all leaves (unless independent), nothing is
    lost, and the result is a function of the key."""
    n = c["n"]
    # row numbers, recognisable in every leaf
    x = gen.build(c["t"], lambda s, p: np.broadcast_to(
        np.arange(n, dtype=float).reshape((n,) + (1,) * len(s["s"])), (n, *s["s"])).copy())
    key = jax.random.key(c["seed"] % 1000)
    got = np_tree(T.random_permute_leaves(to_jax(x), key, independent_leaves=c["ind"]))
    again = np_tree(T.random_permute_leaves(to_jax(x), key, independent_leaves=c["ind"]))
    expect(gen.same_struct(got, x), "structure")
    first = None
    for (p, v), (_, w), (_, o) in zip(gen.flat(got), gen.flat(again), gen.flat(x)):
        expect(same(v, w), "not a function of the key")
        expect(v.shape == o.shape, "shape changed")
        rows = v.reshape(n, -1)
        expect((rows == rows[:, :1]).all(), f"rows of leaf {p} were torn apart")
        expect(sorted(rows[:, 0]) == list(range(n)), f"leaf {p} is not a permutation of the rows")
        if not c["ind"]:
            first = rows[:, 0] if first is None else first
            expect((rows[:, 0] == first).all(), f"leaf {p} is permuted differently from the first leaf")
    ctx.mark(n > 2)


# ------------------------------------------------------------- predicates
@CHECK.sub("compare", st.fixed_dictionaries(dict(
    t=TREE, seed=seeds, lead=st.sampled_from([[3, 2], [1, 2], [3, 1], [1, 1]]),
    change=st.sampled_from(["none", "value", "tiny", "shape", "struct", "list", "shape1", "cut", "cut1", "nan"]),
    axis=st.sampled_from([None, 0, 1, -1, "1:", ":1", ":-1", [0, 1], [1, 0], [-1, 0], [1], [0, -2]]))), 700)
def compare(c, ctx):
    t = c["t"]
    x = mk(t, c["seed"], c["lead"])
    y = mk(t, c["seed"], c["lead"])
    lv = gen.flat(y)
    k = c["seed"] % len(lv)
    p = lv[k][0]
    ch = c["change"]

    def edit(v, f):
        def go(v, q):
            if q == p:
                return f(v)
            if isinstance(v, dict):
                return {a: go(b, q + (a,)) for a, b in v.items()}
            if isinstance(v, (list, tuple)):
                return type(v)(go(b, q + (i,)) for i, b in enumerate(v))
            return v

        return go(v, ())

    if ch == "value":
        y = edit(y, lambda v: v + (np.arange(v.size).reshape(v.shape) == c["seed"] % v.size) * 1.0)
    elif ch == "tiny":
        y = edit(y, lambda v: v * (1 + 1e-12))
    elif ch == "shape":
        y = edit(y, lambda v: np.concatenate([v, v]))
    elif ch == "shape1":
        y = edit(y, lambda v: np.concatenate([v, v], axis=1))
    elif ch == "cut":
        y = edit(y, lambda v: v[:1])
    elif ch == "cut1":
        y = edit(y, lambda v: v[:, :1])
    elif ch == "nan":
        x, y = (edit(v, lambda w: np.where(np.arange(w.size).reshape(w.shape) == 0, np.nan, w)) for v in (x, y))
    elif ch == "struct":
        y = edit(y, lambda v: [v])
    elif ch == "list":
        y = {"only": y}
    struct = ch not in ("struct", "list")
    jx, jy = to_jax(x), to_jax(y)
    eq = struct and all(a.shape == b.shape and np.array_equal(a, b) for (_, a), (_, b) in zip(gen.flat(x), gen.flat(y)))
    expect(T.all_equal(jx, jy) == eq, f"all_equal is not {eq} after change {ch}")
    shp = struct and all(a.shape == b.shape for (_, a), (_, b) in zip(gen.flat(x), gen.flat(y)))
    if shp or not struct:
        expect(bool(T.all_close(jx, jy)) == (struct and ch not in ("value", "nan")), f"all_close after change {ch}")
    ax = c["axis"]
    if isinstance(ax, str):
        ax = slice(*[int(v) if v else None for v in ax.split(":")])
    elif isinstance(ax, list):
        ax = tuple(ax)

    def cut(s):
        if ax is None:
            return s
        if isinstance(ax, slice):
            return s[ax]
        return tuple(s[i] for i in ((ax,) if isinstance(ax, int) else ax))

    sx = [cut(v.shape) for _, v in gen.flat(x)]
    sy = [cut(v.shape) for _, v in gen.flat(y)]
    expect(T.shapes_equal(jx, jy, axis=ax) == (struct and sx == sy), f"shapes_equal({ax}) for {sx} and {sy}, structures equal: {struct}")
    expect(T.has_uniform_leaf_shapes(jy, axis=ax) == (len(set(sy)) == 1), f"has_uniform_leaf_shapes({ax}) for {sy}")
    expect(T.uniform_leaf_shapes_equal(jx, jy, axis=ax) == (len(set(sx) | set(sy)) == 1), f"uniform_leaf_shapes_equal({ax}) for {sx}, {sy}")
    got = T.get_shapes(jy, axis=ax)
    ref = [cut(v.shape) for _, v in gen.flat(y)]
    gl = jax.tree.leaves(got, is_leaf=_is_shape)
    expect([tuple(q) for q in gl] == ref, f"get_shapes({ax}): {gl}, expected {ref}")
    ctx.mark(gen.count_leaves(t) > 1)
    ctx.label(ch)


def _is_shape(v):
    return isinstance(v, tuple) and all(isinstance(k, int) for k in v)


@CHECK.sub("shapeleaf", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(s=st.one_of(st.none(), st.lists(st.integers(0, 4), max_size=3))), max_leaves=4))), 80)
def shapeleaf(c, ctx):
    """Shapes are recognised as leaves of a tree of shapes, containers are not."""
    t = c["t"]
    x = gen.build(t, lambda s, p: None if s["s"] is None else tuple(s["s"]))

    def walk(v, q):
        if v is None:
            expect(T.is_shape_leaf(v) and not T.is_shape_leaf(v, allow_none=False), "None as a shape")
            return
        expect(bool(T.is_shape_leaf(v)) == _is_shape(v), f"is_shape_leaf({v!r})")
        expect(bool(T.is_shape_leaf(v, allow_none=False)) == _is_shape(v), f"is_shape_leaf({v!r}) without None")
        if not _is_shape(v):
            for k, w in v.items() if isinstance(v, dict) else enumerate(v):
                walk(w, q + (k,))

    walk(x, ())
    ctx.mark(gen.count_leaves(t) > 1)


@CHECK.sub("convert", st.fixed_dictionaries(dict(
    t=TREE, seed=seeds, dtype=st.sampled_from(["float32", "complex64", "float64", "complex128"]))), 300)
def convert(c, ctx):
    t = c["t"]
    x = mk(t, c["seed"])
    jx = to_jax(x)
    cplx = any(np.iscomplexobj(v) for _, v in gen.flat(x))
    want = gen.tmap(lambda v: (np.real(v) if not c["dtype"].startswith("c") else v).astype(c["dtype"]), x)
    got = np_tree(T.astype(jx, c["dtype"]))
    expect(gen.same_struct(got, want), "structure")
    for (p, v), (_, w) in zip(gen.flat(got), gen.flat(want)):
        expect(v.dtype == w.dtype and np.array_equal(v, w), f"astype at {p}")
    try:
        got = np_tree(T.safecast(jx, jnp.dtype(c["dtype"])))
        expect(not (cplx and not c["dtype"].startswith("c")), "complex data silently cast to real")
        for (p, v), (_, w) in zip(gen.flat(got), gen.flat(want)):
            expect(v.dtype == w.dtype and np.array_equal(v, w), f"safecast at {p}")
    except ValueError:
        expect(cplx and not c["dtype"].startswith("c"), "safecast refused a valid cast")
    # tuples become lists, everything else stays
    n = [0]

    def f(s, p):
        n[0] += 1
        return n[0]

    y = gen.build(t, f)

    def lists(v):
        if isinstance(v, dict):
            return {k: lists(w) for k, w in v.items()}
        return [lists(w) for w in v] if isinstance(v, (list, tuple)) else v

    got = T.make_mutable(y)
    expect(got == lists(y) and gen.same_struct(got, lists(y)), f"make_mutable({y}) = {got}")
    ok, lf = T.is_single_leaf(jx)
    expect(ok == (gen.count_leaves(t) == 1), "is_single_leaf")
    if ok:
        s = np.asarray(lf).shape
        nd = len(s)
        expect(T.is_single_leaf(jx, ndim=nd)[0] and not T.is_single_leaf(jx, ndim=nd + 1)[0], "is_single_leaf with ndim")
        expect(T.is_single_leaf(jx, shape=s)[0], "is_single_leaf with the right shape")
        if nd:
            w = (s[0] + 1, *s[1:])
            expect(not T.is_single_leaf(jx, shape=w)[0], "is_single_leaf with a wrong shape")
            expect(T.is_single_leaf(jx, shape=(None, *s[1:]))[0], "None matches any size")
    ctx.mark(gen.count_leaves(t) > 1)
