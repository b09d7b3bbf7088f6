"""C17 scalers and encoders."""
import pathlib
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Check, close, expect, fail, near, same
from pbt.gen import seeds
from pbt.sut import np_tree, pmm

CHECK = Check(
    "C17",
    "random PyTrees of real data (several scales and offsets, constant "
    "features, one to nine samples, single and double precision) with random "
    "options per scaler, leaf or feature; the oracle is the documented "
    "formula in numpy, the round trip, refitting, and restored scalers; "
    "non-trivial: several leaves or options that differ between leaves or "
    "features, and data other than that fitted",
)
P = pmm.preprocessing
SCALERS = ["standard", "minmax", "robust"]


# -------------------------------------------------------------------- options
def scalar_or_tree(vals):
    """An option: a scalar, one scalar per leaf, or one number per feature."""
    return st.fixed_dictionaries(dict(
        how=st.sampled_from(["scalar", "leaf", "leaf", "feature"]), v=st.lists(vals, min_size=6, max_size=6)))


LEAF = gen.leaf_of(shape=gen.leaf_shape(2, 3), scale=st.sampled_from([1.0, 1e-3, 50.0]), off=st.sampled_from([0.0, 3.0, -100.0]),
                   const=st.sampled_from([False, False, True]), dup=st.booleans())
TREE = gen.trees(LEAF, max_leaves=4)
LO = st.sampled_from([0.0, -1.0, 0.25, -3.5])
WIDTH = st.sampled_from([1.0, 2.0, 0.5, -1.5])
QLO = st.sampled_from([0.25, 0.0, 0.1, 0.33, 0.5])
QHI = st.sampled_from([0.75, 1.0, 0.9, 0.6])


@st.composite
def CASE(draw, kinds=SCALERS):
    k = draw(st.sampled_from(kinds))
    c = dict(kind=k, tree=draw(TREE), n=draw(st.integers(1, 9)), n2=draw(st.integers(1, 6)), f32=draw(st.sampled_from([False, False, True])),
             seed=draw(seeds), cont=draw(st.sampled_from(["tuple", "list", "array"])))
    if k == "minmax":
        c["lo"], c["w"] = draw(scalar_or_tree(LO)), draw(scalar_or_tree(WIDTH))
        c["w"]["how"] = c["lo"]["how"]
        c["none"] = draw(st.lists(st.integers(0, 3), max_size=2))
    if k == "robust":
        c["qlo"], c["qhi"] = draw(scalar_or_tree(QLO)), draw(scalar_or_tree(QHI))
        c["none"] = draw(st.lists(st.integers(0, 3), max_size=2))
        for o in ("center", "scal"):
            c[o] = draw(st.fixed_dictionaries(dict(how=st.sampled_from(["scalar", "leaf"]), v=st.lists(st.booleans(), min_size=4, max_size=4))))
        c["eps"] = draw(st.sampled_from([1e-12, 1e-2]))
    return c


def rows(c, n, salt):
    """Random data for the tree of the case, n samples."""
    i = iter(range(99))

    def leaf(t, path):
        k = next(i)
        s = c["seed"] * 7 + 1000 * salt + k
        x = gen.arr(s, [n, *t["shape"]], kind="mixed" if t["dup"] else "normal")
        x = x * t["scale"] + t["off"]
        if t["const"]:
            # the first feature is constant; its mean need not be exactly
            # representable, so that the deviations can be rounding errors
            x = x.reshape(n, -1)
            # (RobustScaler leaves small quantile ranges to its option eps)
            v = 2.0 if "robust" in (c.get("kind"), *c.get("kinds", ())) else [2.0, 0.3, 0.1][c["seed"] % 3]
            x[:, 0] = v + t["off"] if salt == 1 else x[:, 0]
            x = x.reshape(n, *t["shape"])
        return x.astype(np.float32 if c["f32"] else np.float64)

    return gen.build(c["tree"], leaf)


def option(c, o, none=()):
    """(value passed to the constructor, per-leaf list of values)."""
    specs = gen.leaf_specs(c["tree"])
    # None goes with numbers per leaf (not arrays), for some of the leaves
    if o["how"] != "leaf" or len(set(none) & set(range(len(specs)))) == len(specs):
        none = ()
    order = {p: j for j, (p, _) in enumerate(specs)}
    if o["how"] == "scalar":
        return o["v"][0], [o["v"][0]] * len(specs)
    dt = np.float32 if c["f32"] else np.float64

    def leaf(t, path):
        j = order[path]
        if j in none:
            return None
        if o["how"] == "leaf":
            return o["v"][j]
        size = int(np.prod(t["shape"]))
        return np.resize(np.asarray(o["v"], dt), size).reshape(t["shape"])

    tree = gen.build(c["tree"], leaf)
    lv = [None] * len(specs)
    for p, j in order.items():
        v = tree
        for k in p:
            v = v[k]
        lv[j] = v
    return gen.tmap(lambda v: jnp.asarray(v) if isinstance(v, np.ndarray) else v, tree), lv


def addw(c):
    """upper end of the range: lower end + width (the same kind of option)."""
    return dict(how=c["lo"]["how"], v=[a + b for a, b in zip(c["lo"]["v"], c["w"]["v"])])


def scaler_of(c):
    """(new scaler, reference fit)"""
    k = c["kind"]
    if k == "standard":
        return P.StandardScaler(), lambda x, j: ref_affine(x.mean(0), sdev(x))
    if k == "minmax":
        # (a bare None for a whole PyTree is not offered)
        lo, llo = option(c, c["lo"], c["none"])
        hi, lhi = option(c, addw(c), () if len(c["none"]) < 2 else c["none"])
        rng = pack(c, lo, hi)

        def fit(x, j):
            if llo[j] is None or lhi[j] is None:
                return ref_affine(np.zeros(x.shape[1:]), np.ones(x.shape[1:]))
            w = x.max(0) - x.min(0)
            w = np.where(w == 0, 1.0, w)
            s = w / (np.asarray(lhi[j], float) - np.asarray(llo[j], float))
            return ref_affine(x.min(0) - np.asarray(llo[j], float) * s, s)

        return P.MinMaxScaler(feature_range=rng), fit
    ql, lql = option(c, c["qlo"], c["none"])
    qh, lqh = option(c, c["qhi"], () if len(c["none"]) < 2 else c["none"])
    ce, lce = bool_option(c, c["center"])
    sc, lsc = bool_option(c, c["scal"])

    def fit(x, j):
        med = np.median(x, axis=0) if lce[j] else np.zeros(x.shape[1:])
        s = np.ones(x.shape[1:])
        if lsc[j] and lql[j] is not None and lqh[j] is not None:
            s = quant(x, lqh[j]) - quant(x, lql[j])
            s = np.where(np.abs(s) > c["eps"], s, 1.0)
        return ref_affine(med, s)

    return P.RobustScaler(quantile_range=pack(c, ql, qh), with_centering=ce, with_scaling=sc, eps=c["eps"]), fit


def bool_option(c, o):
    specs = gen.leaf_specs(c["tree"])
    if o["how"] == "scalar":
        return o["v"][0], [o["v"][0]] * len(specs)
    order = {p: j for j, (p, _) in enumerate(specs)}
    return gen.build(c["tree"], lambda t, p: o["v"][order[p]]), [o["v"][j] for j in range(len(specs))]


def pack(c, a, b):
    if c["cont"] == "array" and isinstance(a, float) and isinstance(b, float):
        return jnp.asarray([a, b])
    return [a, b] if c["cont"] == "list" else (a, b)


def quant(x, q):
    q = np.asarray(q, float)
    if q.ndim == 0:
        return np.quantile(x, q, axis=0)
    f, qf = x.reshape(len(x), -1), np.broadcast_to(q, x.shape[1:]).ravel()
    return np.asarray([np.quantile(f[:, i], qf[i]) for i in range(f.shape[1])]).reshape(x.shape[1:])


def sdev(x):
    s = x.std(axis=0)
    return np.where((s == 0) | (x.max(axis=0) == x.min(axis=0)), 1.0, s)


def ref_affine(shift, scale):
    return dict(shift=shift, scale=scale)


def leaves(t):
    return [np.asarray(v) for _, v in gen.flat(t)]


def compare(c, got, want, ref, what, src, inverse):
    """Leafwise comparison; tolerances follow from the rounding of the data."""
    expect(gen.same_struct(got, src), lambda: f"{what}: structure {got!r:.200}")
    e = 2e-6 if c["f32"] else 1e-12
    for j, (g, w, r) in enumerate(zip(leaves(got), want, ref)):
        expect(g.shape == w.shape, lambda: f"{what}: leaf {j} has shape {g.shape}, expected {w.shape}")
        expect(g.dtype == (np.float32 if c["f32"] else np.float64), lambda: f"{what}: leaf {j} has type {g.dtype}")
        big = r["big"] if inverse else r["big"] / np.abs(r["scale"]) * (1 + r["big"] / np.abs(r["scale"]) * 0) + np.abs(w)
        bad = ~(np.abs(g - w) <= e * 20 * (big + np.abs(w) + r["amp"] * (not inverse)))
        expect(not bad.any(), lambda: f"{what}: leaf {j} is {g[bad].ravel()[0]!r}, expected {w[bad].ravel()[0]!r}")


def evaluate(c, s, fit, x, x2, what):
    """transform and inverse_transform of new data against the reference."""
    ref = []
    for j, v in enumerate(leaves(x)):
        v64 = v.astype(np.float64)
        r = fit(v64, j)
        r["big"] = np.abs(v64).max() + np.abs(r["shift"]).max() + np.abs(leaves(x2)[j]).max()
        # relative error of the scale: rounding of the fitted statistics
        r["amp"] = r["big"] ** 2 / np.abs(r["scale"]) ** 2
        ref.append(r)
    # scales that are rounding errors of larger data are not determined
    tiny = [np.any(np.abs(r["scale"]) < (1e-4 if c["f32"] else 1e-9) * r["big"]) for r in ref]
    if any(tiny):
        return False
    X2 = gen.tmap(jnp.asarray, x2)
    t = s.transform(X2)
    want = [(v.astype(float) - r["shift"]) / r["scale"] for v, r in zip(leaves(x2), ref)]
    compare(c, t, want, ref, f"{what}: transform", x2, False)
    back = s.inverse_transform(t)
    for r in ref:
        r["amp"] = 0
        r["big"] = r["big"] * (1 + (r["big"] / np.abs(r["scale"]).min() if c["kind"] == "minmax" else 0) * 0)
    compare(c, back, [v.astype(float) for v in leaves(x2)], ref, f"{what}: inverse_transform of transform", x2, True)
    # inverse on arbitrary scaled data
    inv = s.inverse_transform(X2)
    want = [v.astype(float) * r["scale"] + r["shift"] for v, r in zip(leaves(x2), ref)]
    for r in ref:
        r["big"] = r["big"] * (1 + np.abs(r["scale"]).max()) * (1 + r["big"])
    compare(c, inv, want, ref, f"{what}: inverse_transform", x2, True)
    expect(all(same(a, b) for a, b in zip(leaves(X2), leaves(x2))), "the data were changed")
    return True


@CHECK.sub("formula", CASE(), 280)
def formula(c, ctx):
    x, x2 = rows(c, c["n"], 1), rows(c, c["n2"], 2)
    s, fit = scaler_of(c)
    X = gen.tmap(jnp.asarray, x)
    r = s.fit(X)
    expect(r is s, "fit does not return the scaler")
    ok = evaluate(c, s, fit, x, x2, c["kind"])
    ok = evaluate(c, s, fit, x, x, c["kind"] + " (fitted data)") and ok
    # refitting forgets the previous data; fit_transform is fit, then transform
    y = rows(c, c["n2"], 3)
    a = s.fit_transform(gen.tmap(jnp.asarray, y))
    s2, _ = scaler_of(c)
    b = s2.fit(gen.tmap(jnp.asarray, y)).transform(gen.tmap(jnp.asarray, y))
    for p, q in zip(leaves(a), leaves(b)):
        expect(near(p, q), "fit_transform after an earlier fit differs from a new scaler's fit and transform")
    ctx.mark(ok and (len(leaves(x)) > 1 or c.get("lo", {}).get("how") == "feature"))
    ctx.label(c["kind"])


@CHECK.sub("invariants", CASE(), 150)
def invariants(c, ctx):
    """What the formula is for: the fitted data end up standardized; leaves and
    samples are scaled independently of each other."""
    x = rows(c, max(c["n"], 2), 1)
    X = gen.tmap(jnp.asarray, x)
    s, _ = scaler_of(c)
    t = s.fit_transform(X)
    tol = 2e-2 if c["f32"] else 1e-6
    for j, (v, g) in enumerate(zip(leaves(x), leaves(t))):
        v = v.astype(float)
        varies = v.std(0) > 1e-4 * (1 + np.abs(v).max())
        if c["kind"] == "standard":
            close(np.where(varies, g.mean(0), 0), np.zeros(g.shape[1:]), tol, tol, f"mean of leaf {j}")
            close(np.where(varies, g.std(0), 1), np.ones(g.shape[1:]), tol, tol, f"standard deviation of leaf {j}")
        elif c["kind"] == "robust" and c["center"]["how"] == "scalar" and c["center"]["v"][0]:
            close(np.where(varies, np.median(g, axis=0), 0), np.zeros(g.shape[1:]), tol * 100, tol * 100, f"median of leaf {j}")
        expect(np.all(np.isfinite(g)), f"leaf {j}: scaled data are not finite")
    # sample by sample
    i = c["seed"] % len(leaves(x)[0])
    one = s.transform(gen.tmap(lambda v: jnp.asarray(v[i:i + 1]), x))
    for p, q in zip(leaves(one), leaves(t)):
        close(p, q[i:i + 1], tol * 1e-3, tol * 1e-3, "a sample scaled alone")
    # order of the samples while fitting
    perm = np.random.default_rng(c["seed"]).permutation(len(leaves(x)[0]))
    s3, _ = scaler_of(c)
    t3 = s3.fit_transform(gen.tmap(lambda v: jnp.asarray(v[perm]), x))
    if c["kind"] != "standard":
        for p, q in zip(leaves(t3), leaves(t)):
            close(p, q[perm], tol * 1e-3, tol * 1e-3, "order of the samples")
    ctx.mark(len(leaves(x)) > 1 or len(perm) > 2)
    ctx.label(c["kind"])


# -------------------------------------------------------------------- one-hot
OLEAF = gen.leaf_of(shape=gen.leaf_shape(2, 2), vals=st.sampled_from([2, 3, 5]), cplx=st.sampled_from([False, False, True]))
ONE = st.fixed_dictionaries(dict(tree=gen.trees(OLEAF, max_leaves=3), n=st.integers(1, 8), n2=st.integers(1, 6), seed=seeds))


def codes(c, n, salt, wide=0):
    r = np.random.default_rng([c["seed"], salt])

    def leaf(t, path):
        v = np.asarray([0.0, 1.5, -2.0, 7.0, 0.25, 3.0, -1.0])[: t["vals"] + wide]
        x = v[r.integers(len(v), size=[n, *t["shape"]])]
        return x + 1j * v[r.integers(len(v), size=x.shape)] if t["cplx"] else x

    return gen.build(c["tree"], leaf)


def ref_onehot(fitted, x):
    f = [tuple(v.ravel().tolist()) for v in fitted]
    uniq = sorted(set(f), key=lambda row: [(complex(z).real, complex(z).imag) for z in row])
    out = np.zeros((len(x), len(uniq)), x.dtype)
    for i, v in enumerate(x):
        row = tuple(v.ravel().tolist())
        if row in uniq:
            out[i, uniq.index(row)] = 1
    return out, uniq


@CHECK.sub("onehot", ONE, 140)
def onehot(c, ctx):
    x, x2 = codes(c, c["n"], 1), codes(c, c["n2"], 2, 2)
    s = P.OneHot()
    expect(s.fit(gen.tmap(jnp.asarray, x)) is s, "fit does not return the encoder")
    for data in (x, x2):
        t = s.transform(gen.tmap(jnp.asarray, data))
        back = s.inverse_transform(t)
        expect(gen.same_struct(t, data) and gen.same_struct(back, data), "structure")
        seen = new = 0
        for f, v, g, b in zip(leaves(x), leaves(data), leaves(t), leaves(back)):
            want, uniq = ref_onehot(f, v)
            expect(g.shape == want.shape and g.dtype == v.dtype, lambda: f"encoded: {g.dtype}{g.shape}, expected {want.dtype}{want.shape}")
            expect(np.array_equal(g, want), lambda: f"encoded {g.tolist()}, expected {want.tolist()} for values {uniq}")
            known = want.any(axis=1)
            seen, new = seen + known.sum(), new + (~known).sum()
            expect(np.array_equal(b, np.where(known.reshape((-1,) + (1,) * (v.ndim - 1)), v, 0)),
                   lambda: f"decoded {b.tolist()}, data {v.tolist()}")
    ctx.mark(seen and new)
    ctx.label("unseen" if new else "seen")


# ---------------------------------------------------------------------- mixed
@st.composite
def MIXED(draw):
    tree = draw(gen.trees(LEAF, max_leaves=4, allow_leaf=False))
    n = gen.count_leaves(tree)
    return dict(tree=tree, kinds=draw(st.lists(st.sampled_from(["standard", "minmax", "robust", "onehot", None, "sub"]), min_size=n, max_size=n)),
                none=draw(st.sampled_from([False] * 9 + [True])), n=draw(st.integers(2, 7)), n2=draw(st.integers(1, 5)), seed=draw(seeds), f32=False,
                store=draw(st.sampled_from(["no", "serialize", "save", "save_compressed"])), first=draw(st.booleans()), lo=draw(LO), way=draw(st.sampled_from(WAYS)))


WAYS = ["str", "ext", "path", "pathext", "file", "handles"]


def store(s, how, way):
    if how == "no":
        return s
    if how == "serialize":
        return type(s).deserialize(s.serialize())
    with tempfile.TemporaryDirectory(prefix="c17-") as d:
        base = pathlib.Path(d) / "scaler"
        write = getattr(s, how)
        if way in ("file", "handles"):
            src = str(base) + ".npz"
            with open(src, "wb") as fh:
                write(fh)
            if way == "handles":
                with open(src, "rb") as fh:
                    return type(s).load(fh)
        else:
            src = {"str": str(base), "ext": str(base) + ".npz", "path": base, "pathext": pathlib.Path(str(base) + ".npz")}[way]
            write(src)
        return (type(s).load if way != "ext" else type(s).from_file)(src)


def part(kind, c):
    return {"standard": P.StandardScaler, "minmax": lambda: P.MinMaxScaler((c["lo"], c["lo"] + 2.0)), "robust": lambda: P.RobustScaler((0.1, 0.9)),
            "onehot": P.OneHot, None: lambda: None, "sub": lambda: P.MixedScaler(P.StandardScaler())}[kind]()


@CHECK.sub("mixed", MIXED(), 110)
def mixed(c, ctx):
    """A mixed scaler does to every leaf what the scaler of that leaf does."""
    specs = gen.leaf_specs(c["tree"])
    order = {p: j for j, (p, _) in enumerate(specs)}
    x, x2 = rows(c, c["n"], 1), rows(c, c["n2"], 2)
    X, X2 = gen.tmap(jnp.asarray, x), gen.tmap(jnp.asarray, x2)
    kinds = [None] * len(specs) if c["none"] else c["kinds"]
    s = P.MixedScaler(None if c["none"] else gen.build(c["tree"], lambda t, p: part(kinds[order[p]], c)))
    if c["first"]:
        s = store(s, c["store"], c["way"])
    r = s.fit(X)
    expect(r is s, "fit does not return the scaler")
    if not c["first"]:
        s = store(s, c["store"], c["way"])
    t = s.transform(X2)
    back = s.inverse_transform(t)
    for j, (v, v2, g, b) in enumerate(zip(leaves(X), leaves(X2), leaves(t), leaves(back))):
        p = part(kinds[j], c)
        if p is None:
            expect(same(g, v2) and same(b, v2), f"leaf {j} has no scaler and was changed")
            continue
        p.fit(jnp.asarray(v))
        w = p.transform(jnp.asarray(v2))
        expect(near(g, w), lambda: f"leaf {j} ({kinds[j]}): {g!r}, its own scaler gives {w!r}")
        expect(near(b, p.inverse_transform(w)), f"leaf {j} ({kinds[j]}): inverse_transform differs from its own scaler's")
    expect(gen.same_struct(t, x2) and gen.same_struct(back, x2), "structure")
    ctx.mark(len(set(kinds)) > 1)
    ctx.label(c["store"])


# ---------------------------------------------------------- saving, not fitted
@CHECK.sub("stored", st.fixed_dictionaries(dict(
    c=CASE(SCALERS), kind=st.sampled_from(["scaler", "scaler", "scaler", "onehot"]), o=ONE, fitted=st.sampled_from([True, True, False]), how=st.sampled_from(["serialize", "save", "save_compressed"]),
    way=st.sampled_from(WAYS))), 140)
def stored(c, ctx):
    q = c["c"]
    if c["kind"] == "onehot":
        s, x, x2 = P.OneHot(), codes(c["o"], c["o"]["n"], 1), codes(c["o"], c["o"]["n2"], 2)
        fresh = P.OneHot
    else:
        s, _ = scaler_of(q)
        x, x2 = rows(q, q["n"], 1), rows(q, q["n2"], 2)
        fresh = lambda: scaler_of(q)[0]
    X, X2 = gen.tmap(jnp.asarray, x), gen.tmap(jnp.asarray, x2)
    if c["fitted"]:
        s.fit(X)
    r = store(s, c["how"], c["way"])
    expect(type(r) is type(s), f"restored as {type(r).__name__}")
    if not c["fitted"]:
        for z in (s, r):
            for f in ("transform", "inverse_transform"):
                try:
                    getattr(z, f)(X2)
                except Exception:
                    continue
                fail(f"{type(z).__name__}.{f} works before fit")
        r.fit(X)
        s.fit(X)
    s0 = fresh().fit(X)
    for f in ("transform", "inverse_transform"):
        arg = X2 if f == "transform" else s.transform(X2)
        a, b, w = (getattr(z, f)(arg) for z in (s, r, s0))
        expect(gen.same_struct(b, a), f"{f} of the restored scaler: structure")
        for u, v, z in zip(leaves(a), leaves(b), leaves(w)):
            expect(near(u, v), lambda: f"{f} of the restored scaler: {v!r}, original {u!r}")
            expect(same(u, z), f"{f} changed by saving")
    # the restored scaler can be fitted again and remembers its options
    y = gen.tmap(lambda v: jnp.asarray(v * 2 + 1), x)
    a, b = fresh().fit(y).transform(X2), r.fit(y).transform(X2)
    for u, v in zip(leaves(a), leaves(b)):
        expect(near(u, v), lambda: f"restored scaler fitted again: {v!r}, expected {u!r}")
    ctx.mark(c["fitted"] and len(leaves(x)) > 1)
    ctx.label(c["how"], c["kind"])
