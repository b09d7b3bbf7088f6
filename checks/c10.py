"""C10 evaluation does not depend on batching, and does not change the model."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, graphs, models
from pbt import usermods as U
from pbt.core import Check, close, expect, same
from pbt.gen import seeds
from pbt.sut import np_tree, pmm, to_jax

from parametricmatrixmodels.model_util import autobatch

from .c07 import agree

CHECK = Check(
    "C10",
    "random sequential and non-sequential models and histories of evaluations "
    "of one model object with different batch limits, subsets, orders and "
    "repetitions of the samples, compared sample by sample with the plain "
    "evaluation; non-trivial: a batch limit smaller than the number of samples "
    "that leaves a remainder, or a rearranged batch",
)

OP = st.fixed_dictionaries(dict(
    k=st.sampled_from([None, 1, 2, 3, 4, 7]), avoid=st.booleans(), verb=st.sampled_from([False, False, False, True]),
    rows=st.sampled_from(["all", "perm", "rep", "one", "head"]), seed=seeds))


def rows_of(op, n):
    r = np.random.default_rng(op["seed"])
    if op["rows"] == "perm":
        return r.permutation(n)
    if op["rows"] == "rep":
        return r.integers(0, n, size=1 + op["seed"] % 7)
    if op["rows"] == "one":
        return np.array([r.integers(n)])
    if op["rows"] == "head":
        return np.arange(1 + op["seed"] % n)
    return np.arange(n)


def snap(m):
    return [np.asarray(v) for v in jax.tree.leaves((m.get_params(), m.get_state()))]


def unchanged(m, before):
    now = snap(m)
    expect(len(now) == len(before) and all(same(a, b) for a, b in zip(now, before)),
           "evaluating the model changed its parameters or state")


def history(m, x, ops, ctx, tol=1e-9):
    n = gen.flat(x)[0][1].shape[0]
    before = snap(m)
    ref = np_tree(m(to_jax(x)))
    for op in ops:
        ix = rows_of(op, n)
        xs = to_jax(gen.tmap(lambda v: v[ix], x))
        xin = [np.array(v) for _, v in gen.flat(xs)]
        out = np_tree(m(xs, max_batch_size=op["k"], avoid_recompilation=op["avoid"], **({"verbose": True} if op["verb"] else {})))
        want = gen.tmap(lambda v: v[ix], ref)
        agree(out, want, f"output with max_batch_size={op['k']}, avoid_recompilation={op['avoid']}, rows {ix.tolist()}", tol)
        expect(all(same(a, v) for a, (_, v) in zip(xin, gen.flat(xs))), "the input was changed")
        unchanged(m, before)
        if op["k"] and len(ix) > op["k"]:
            ctx.mark(len(ix) % op["k"] or op["rows"] != "all")
            ctx.label("remainder" if len(ix) % op["k"] else "even")
    # same call, same bits
    again = np_tree(m(to_jax(x)))
    for (p, a), (_, b) in zip(gen.flat(ref), gen.flat(again)):
        close(a, b, 1e-12, 1e-12, f"repeated evaluation at {p}")
    ctx.label(*{o["rows"] for o in ops})


@CHECK.sub("sequential", st.fixed_dictionaries(dict(
    net=models.pipelines(hi=3, extra=("scale", "shift")), box=models.boxes(), n=st.integers(1, 9),
    ops=st.lists(OP, min_size=2, max_size=4), seed=seeds)), 150)
def sequential(c, ctx):
    m, _ = models.model(c["net"], c["box"], c["seed"] % 9973)
    history(m, models.data(c["net"]["in"], c["seed"], c["n"]), c["ops"], ctx)


@CHECK.sub("graph", st.fixed_dictionaries(dict(
    g=graphs.graphs(max_nodes=4), n=st.integers(1, 9), ops=st.lists(OP, min_size=2, max_size=4), seed=seeds)), 100)
def graph(c, ctx):
    g = {**c["g"], "nodes": [{**nd, "kind": "map"} if nd["kind"] == "counter" else nd for nd in c["g"]["nodes"]]}
    m, _ = graphs.build(g)
    m.compile(c["seed"] % 97, graphs.in_shape(g))
    models.widen(m)
    history(m, graphs.data(g, c["seed"], c["n"]), c["ops"], ctx)


@CHECK.sub("light", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(s=st.lists(st.sampled_from([1, 2, 3]), max_size=4)), max_leaves=3, allow_leaf=False),
    n=st.integers(1, 20), ops=st.lists(OP, min_size=3, max_size=5), seed=seeds)), 150)
def light(c, ctx):
    """Cheap modules, leaves of any rank (also without feature axes)."""
    m = pmm.SequentialModel([U.Scale(0.7, 0.1), U.Scale(1.1, -0.2)])
    m.compile(0, models.spec_shape(c["t"]))
    models.widen(m)
    history(m, models.data(c["t"], c["seed"], c["n"]), c["ops"], ctx)


@CHECK.sub("state", st.fixed_dictionaries(dict(
    n=st.integers(1, 17), k=st.sampled_from([None, 1, 2, 3, 5, 8]), avoid=st.booleans(), upd=st.lists(st.booleans(), min_size=1, max_size=3),
    seed=seeds)), 160)
def state(c, ctx):
    """The state is threaded through the batches of one call, in order, and
    kept only when asked to."""
    m = pmm.SequentialModel([U.Scale(1.0, 0.0), U.Counter(0.0)])
    m.compile(0, (2,))
    models.widen(m)
    x = gen.arr(c["seed"], (c["n"], 2))
    n, k = c["n"], c["k"] or c["n"]
    k = min(k, n)
    chunks = [x[i * k:(i + 1) * k] for i in range(n // k)]
    rem = x[n // k * k:]
    if len(rem):
        chunks += [rem[i:i + 1] for i in range(len(rem))] if c["avoid"] else [rem]
    cnt, tot = 0, 0.0
    for up in c["upd"]:
        before = snap(m)
        out, s = m(to_jax(x), max_batch_size=c["k"], avoid_recompilation=c["avoid"], return_state=True, update_state=up)
        close(np.asarray(out), x, 1e-12, 1e-12, "output")
        s = [np.asarray(v) for v in jax.tree.leaves(s)]
        expect(len(s) == 2 and s[0].dtype == np.int32 and s[0].shape == (1,) and s[1].shape == (1,), f"form of the returned state: {s}")
        ncall = int(s[0][0]) - cnt
        expect(ncall in (len(chunks), -(-n // k)), f"the batches of {n} samples with limit {c['k']} were counted {ncall} times")
        parts = chunks if ncall == len(chunks) else chunks[:n // k] + [rem]
        close(s[1], [tot + sum(q.mean() for q in parts)], 1e-5, 1e-5, "state accumulated over the batches")
        if up:
            now = [np.asarray(v) for v in jax.tree.leaves(m.get_state())]
            expect(all(same(a, b) for a, b in zip(now, s)), "update_state did not keep the returned state")
            cnt, tot = int(s[0][0]), float(s[1][0])
        else:
            unchanged(m, before)
    ctx.mark(len(chunks) > 1 and any(c["upd"]))


@CHECK.sub("number", st.fixed_dictionaries(dict(
    calls=st.lists(st.fixed_dictionaries(dict(n=st.sampled_from([1, 5, 8, 7, 11, 14, 3, 2, 17]), k=st.sampled_from([None, 1, 2, 3, 4, 5, 8]), avoid=st.booleans(), up=st.sampled_from([True, True, False]))),
                   min_size=1, max_size=3), graph=st.booleans(), seed=seeds)), 140)
def number(c, ctx):
    """Samples are numbered through the batches of a call, and through calls
    that keep the state: none is processed twice, skipped, or out of order."""
    mods = [U.Scale(1.0, 0.0), U.Number()]
    m = pmm.NonSequentialModel({"a": mods[0], "b": mods[1]}, {"input": "a", "a": "b", "b": "output"}) if c["graph"] else pmm.SequentialModel(mods)
    m.compile(0, (2,))
    models.widen(m)
    seen, h = 0, 0.0
    for j, o in enumerate(c["calls"]):
        x = gen.arr(c["seed"] + j, (o["n"], 2))
        out, s = m(to_jax(x), max_batch_size=o["k"], avoid_recompilation=o["avoid"], return_state=True, update_state=o["up"])
        close(np.asarray(out), x + (seen + np.arange(o["n"]))[:, None], 1e-9, 1e-9, f"numbered samples in call {j}: {o}")
        g = h
        for v in x:
            g = g * np.exp(-0.3) + v.sum()
        s = [np.asarray(v) for v in jax.tree.leaves(s)]
        expect(len(s) == 2 and int(s[0][0]) == seen + o["n"], lambda: f"call {j}: the state counts {s} samples, {seen + o['n']} expected")
        close(s[1], [g], 1e-4, 1e-4, f"checksum of the samples in call {j}: {o}")
        if o["up"]:
            seen, h = seen + o["n"], g
        k = o["k"] or o["n"]
        ctx.mark(o["n"] > k and o["n"] % k)
        ctx.label("avoid" if o["avoid"] else "jit")


@CHECK.sub("wrapper", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(s=st.lists(st.sampled_from([1, 2, 3]), max_size=3)), max_leaves=3),
    n=st.integers(1, 12), k=st.sampled_from([2, 3, 1, 5, 4, None]), avoid=st.booleans(), training=st.booleans(),
    verbose=st.sampled_from([False, False, True]), jit=st.booleans(), seed=seeds)), 120)
def wrapper(c, ctx):
    """The batching decorator by itself: every batch gets the same parameters,
    flag and key, and the state that the batch before it returned."""
    def fn(params, X, training, state, rng):
        rows = jax.tree.leaves(X)[0].shape[0]
        u = jax.random.uniform(rng)
        return (jax.tree.map(lambda v: v * params["w"] + (3.0 if training else 5.0) + u, X),
                {"rows": state["rows"] + rows, "sum": state["sum"] + sum(v.sum() for v in jax.tree.leaves(X))})

    x = models.data(c["t"], c["seed"], c["n"])
    f = autobatch(jax.jit(fn, static_argnums=2) if c["jit"] else fn, c["k"], avoid_recompilation=c["avoid"], verbose=c["verbose"])
    key = jax.random.key(c["seed"] % 9973)
    got, state = f({"w": jnp.asarray(1.5)}, to_jax(x), c["training"], {"rows": jnp.asarray(2.0), "sum": jnp.asarray(0.5)}, key)
    u = float(jax.random.uniform(key))
    agree(np_tree(got), gen.tmap(lambda v: v * 1.5 + (3.0 if c["training"] else 5.0) + u, x), "batched output")
    expect(float(state["rows"]) == c["n"] + 2, f"{float(state['rows']) - 2} of {c['n']} samples reached the state")
    close(np.asarray(state["sum"]), 0.5 + sum(v.sum() for _, v in gen.flat(x)), 1e-9, 1e-9, "state after the last batch")
    ctx.mark(c["k"] is not None and c["n"] > c["k"])
    ctx.label(f"training {c['training']}", f"avoid {c['avoid']}")


@CHECK.sub("dtype", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(s=st.lists(st.sampled_from([1, 2, 3]), min_size=1, max_size=2)), max_leaves=3),
    n=st.integers(1, 5), seed=seeds, din=st.sampled_from(["float32", "float64"]), dt=st.sampled_from([None, "float32", "float64"]),
    k=st.sampled_from([None, None, 1, 2]), avoid=st.booleans())), 70)
def dtype(c, ctx):
    """Inputs are cast to the requested type (double by default) first."""
    m = pmm.SequentialModel([U.TrainShift()])
    m.compile(0, models.spec_shape(c["t"]))
    x = models.data(c["t"], c["seed"], c["n"], dtype=c["din"])
    kw = {} if c["dt"] is None else {"dtype": getattr(jnp, c["dt"])}
    if c["k"] is not None:
        kw.update(max_batch_size=c["k"], avoid_recompilation=c["avoid"])
    out = np_tree(m(to_jax(x), **kw))
    want = gen.tmap(lambda v: v.astype(c["dt"] or "float64"), x)
    for (p, a), (_, b) in zip(gen.flat(out), gen.flat(want)):
        expect(same(a, b), f"output at {p} is {a.dtype}, expected {b.dtype}")
    ctx.mark(c["din"] != (c["dt"] or "float64"))
