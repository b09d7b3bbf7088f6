"""C05 structural modules rearrange data without changing it."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Check, close, expect, fail
from pbt.gen import arr, seeds, tmap
from pbt.sut import M, apply, check_shapes, np_tree, shapes, to_jax

CHECK = Check(
    "C05",
    "PyTree structures with keys that look like indices, shapes, target "
    "shapes, concatenation axes, orders and separators, key paths and output "
    "structures are drawn; the data are distinct integers so that every "
    "element can be traced; non-trivial: at least two leaves, or a leaf with "
    "at least two feature axes",
)
KEYS = ["b", "a", "10", "2", "0", "x y", "-1", "B"]


def number(tree, b, f32=False):
    """Data whose elements are all different."""
    n = [0]

    def mk(s, path):
        shp = (b, *s["s"])
        k = int(np.prod(shp))
        x = np.arange(n[0], n[0] + k, dtype=np.float32 if f32 else np.float64).reshape(shp)
        n[0] += k
        return x

    return gen.build(tree, mk)


def exact(got, ref, what):
    got = np_tree(got)
    expect(gen.same_struct(got, ref), f"{what}: structure {shape_of(got)}, expected {shape_of(ref)}")
    for (p, v), (_, w) in zip(gen.flat(got), gen.flat(ref)):
        expect(v.dtype == w.dtype, f"{what}: dtype {v.dtype} at {p}, expected {w.dtype}")
        close(v, w, 0, 0, f"{what} at {p}")


def shape_of(x):
    return tmap(lambda a: tuple(a.shape), x)


lf = gen.leaf_of(s=st.lists(st.sampled_from([2, 3, 1, 4]), max_size=3))


def factor(r, n, style):
    """A random target shape with n elements."""
    dims = []
    while n > 1 and len(dims) < 4:
        ds = [d for d in range(1, n + 1) if n % d == 0]
        d = ds[int(r.integers(0, len(ds)))]
        dims.append(d)
        n //= d
    if n > 1:
        dims.append(n)
    if style == "minus":
        if not dims:
            dims = [-1]
        else:
            dims[int(r.integers(0, len(dims)))] = -1
    return tuple(dims)


rs_leaf = gen.leaf_of(s=st.lists(st.sampled_from([2, 3, 1, 4]), max_size=3),
                      to=st.sampled_from(["shape", "minus", "shape", "none"]))


@CHECK.sub("reshape", st.fixed_dictionaries(dict(
    tree=gen.trees(rs_leaf, max_leaves=3, keys=KEYS, depth=2), b=st.sampled_from([1, 2, 3]),
    seed=seeds, flatten=st.booleans(), f32=st.booleans())), 400)
def reshape(c, ctx):
    x = number(c["tree"], c["b"], c["f32"])
    r = np.random.Generator(np.random.PCG64(c["seed"]))
    if c["flatten"]:
        m = M.Flatten()
        ref = tmap(lambda v: v.reshape(c["b"], -1), x)
    else:
        tgt = {}

        def mk(s, p):
            n = int(np.prod(s["s"])) if s["s"] else 1
            tgt[p] = None if s["to"] == "none" else factor(r, n, s["to"])
            return tgt[p]

        shape = gen.build(c["tree"], mk)
        bare = gen.is_leaf(c["tree"])
        if not bare and all(t is None for t in tgt.values()):
            shape = None if c["seed"] % 2 else shape
        m = M.Reshape(shape)
        ref = gen.build(c["tree"], lambda s, p: p)
        at = {p: v for p, v in gen.flat(x)}

        def want(s, p):
            v = at[p]
            if tgt[p] is None:
                return v
            n = int(np.prod(v.shape[1:]))
            t = list(tgt[p])
            if -1 in t:
                k = int(np.prod([d for d in t if d != -1]))
                t[t.index(-1)] = n // k
            return v.reshape(c["b"], *t)

        ref = gen.build(c["tree"], want)
    decl = m.get_output_shape(shapes(x)) if c["seed"] % 3 else None
    out = apply(m, x)
    exact(out, ref, m.name)
    check_shapes(decl if decl is not None else m.get_output_shape(shapes(x)), out)
    ctx.mark(gen.count_leaves(c["tree"]) > 1 or any(v.ndim > 2 for _, v in gen.flat(x)))
    ctx.label("flatten" if c["flatten"] else "reshape")


@CHECK.sub("concatenate", st.fixed_dictionaries(dict(
    tree=gen.trees(gen.leaf_of(s=st.lists(st.sampled_from([2, 3, 1]), min_size=3, max_size=3)),
                   max_leaves=4, min_leaves=1, keys=KEYS, depth=3),
    ndim=st.sampled_from([1, 2, 3]), axis=st.sampled_from([None, 0, 1, 2, -1, -2]),
    order=st.one_of(st.none(), st.permutations(range(4)), st.lists(st.integers(0, 3), min_size=1, max_size=4)),
    tup=st.booleans(), sep=st.sampled_from([".", "/", "::"]), b=st.sampled_from([1, 2, 3]),
    f32=st.booleans())), 480)
def concatenate(c, ctx):
    nd, axis = c["ndim"], c["axis"]
    if axis is not None:
        if axis < 0:
            # counted from the end like every axis; -1 + 1 must not hit the batch
            axis = None if axis < -nd else axis
        elif axis >= nd:
            axis = nd - 1
    uaxis = axis  # as the user writes it: an axis of the arrays (without batch)
    if axis is not None and axis < 0:
        axis = axis + nd
    specs = gen.leaf_specs(c["tree"])
    base = specs[0][1]["s"][:nd]

    def shp(s):
        t = list(s["s"][:nd])
        if axis is not None:
            t = [t[i] if i == axis else base[i] for i in range(nd)]
        return t

    n = [0]

    def mk(s, p):
        sh = (c["b"], *shp(s))
        k = int(np.prod(sh))
        v = np.arange(n[0], n[0] + k, dtype=np.float32 if c["f32"] else np.float64).reshape(sh)
        n[0] += k
        return v

    x = gen.build(c["tree"], mk)
    leaves = gen.flat(x)
    po = None
    sel = list(range(len(leaves)))
    if c["order"] is not None and not gen.is_leaf(c["tree"]):
        sel = [i for i in c["order"] if i < len(leaves)] or [0]
        po = [c["sep"].join(map(str, leaves[i][0])) for i in sel]
        po = tuple(po) if c["tup"] else po
    m = M.ConcatenateLeaves(axis=uaxis, path_order=po, separator=c["sep"])
    out = apply(m, x)
    vs = [leaves[i][1] for i in sel]
    ref = []
    for i in range(c["b"]):  # sample by sample
        if axis is None:
            ref.append(np.concatenate([v[i].ravel() for v in vs]))
        else:
            ref.append(np.concatenate([v[i] for v in vs], axis=axis))
    exact(out, np.stack(ref), "concatenated leaves")
    check_shapes(m.get_output_shape(shapes(x)), out)
    ctx.mark(len(sel) > 1)
    ctx.label("axis" if axis is not None else "flat", "ordered" if po else "default")


def subtree(x, path):
    for k in path:
        x = x[k]
    return x


def all_paths(t, path=()):
    """All addressable nodes below the root."""
    out = [path] if path else []
    if gen.is_leaf(t):
        return out
    ks = t["k"] if t["t"] == "dict" else range(len(t["c"]))
    for k, ch in zip(ks, t["c"]):
        out += all_paths(ch, path + (k,))
    return out


pick = gen.leaf_of(i=st.integers(0, 30))


@CHECK.sub("treekey", st.fixed_dictionaries(dict(
    tree=gen.trees(lf, max_leaves=5, min_leaves=1, keys=KEYS, depth=3, allow_leaf=False),
    out=st.one_of(gen.trees(pick, max_leaves=4, depth=2), gen.trees(pick, max_leaves=4, depth=2), st.none()),
    sep=st.sampled_from([".", "/", "::"]), b=st.sampled_from([1, 2]), flat=st.sampled_from([False, False, True]))), 400)
def treekey(c, ctx):
    x = number(c["tree"], c["b"])
    if c["flat"]:
        m = M.TreeFlatten()
        ref = [v for _, v in gen.flat(x)]
    elif c["out"] is None:
        m = M.TreeKey(None)
        ref = x
    else:
        paths = all_paths(c["tree"])
        pk = lambda s: paths[s["i"] % len(paths)]
        m = M.TreeKey(gen.build(c["out"], lambda s, p: c["sep"].join(map(str, pk(s)))), separator=c["sep"])
        ref = gen.build(c["out"], lambda s, p: subtree(x, pk(s)))
    out = apply(m, x)
    exact(out, ref, m.name)
    check_shapes(m.get_output_shape(shapes(x)), out)
    ctx.mark(gen.count_leaves(c["tree"]) > 1)
    ctx.label("flat" if c["flat"] else "all" if c["out"] is None else "keys")


@CHECK.sub("comment", st.fixed_dictionaries(dict(
    tree=gen.trees(lf, max_leaves=4, keys=KEYS, depth=2), text=st.sampled_from(["a longer text", "hello", ""]),
    b=st.sampled_from([1, 2]))), 30)
def comment(c, ctx):
    x = number(c["tree"], c["b"])
    m = M.Comment(c["text"])
    out = apply(m, x)
    exact(out, x, "comment")
    check_shapes(m.get_output_shape(shapes(x)), out)
    ctx.mark(gen.count_leaves(c["tree"]) > 1)


@CHECK.sub("invalid", st.fixed_dictionaries(dict(
    what=st.sampled_from(["key", "index", "size", "structure", "concat", "infer", "infer2", "leaf", "container", "axis"]),
    n=st.integers(2, 9))), 80)
def invalid(c, ctx):
    """Requests that cannot be met are refused when the module is compiled,
    never answered with other data."""
    n = c["n"]
    x = {"a": np.ones((2, n)), "b": [np.ones((2, n + 1))]}
    m = dict(
        key=lambda: M.TreeKey(["a", "zz"]), index=lambda: M.TreeKey(["b.%d" % n]),
        size=lambda: M.Reshape({"a": (n + 1,), "b": [None]}),
        structure=lambda: M.Reshape({"a": (n,), "b": (n + 1,)}),
        infer=lambda: M.Reshape({"a": (-1, n + 1), "b": [None]}),
        infer2=lambda: M.Reshape({"a": (-1, n), "b": [(n, -1)]}),
        leaf=lambda: M.Reshape((-1,)), container=lambda: M.Reshape({"a": (n,)}),
        axis=lambda: M.ConcatenateLeaves(axis=2),
        concat=lambda: M.ConcatenateLeaves(path_order=["a", "b.7"]))[c["what"]]()
    try:
        m.compile(None, shapes(to_jax(x)))
    except Exception:  # noqa: BLE001
        ctx.mark()
        return
    fail(f"{m.name} was compiled for {shapes(to_jax(x))}")
