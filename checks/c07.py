"""C07 sequential models are compositions of their modules."""
import contextlib
import io
import jax
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models
from pbt.core import Check, close, expect
from pbt.gen import seeds
from pbt.sut import np_tree, pmm, to_jax

CHECK = Check(
    "C07",
    "pipelines of modules (including stateful user modules), stored in lists, "
    "tuples, dictionaries whose insertion order differs from key order, nested "
    "containers and sub-models, with random parameters, PyTree data and batch "
    "sizes; the oracle applies the modules one by one; non-trivial: at least "
    "two modules, one of them nested or keyed",
)


def fold(mods, x, states=None):
    """Apply bare modules one after the other."""
    key = jax.random.key(0)
    states = [m.get_state() for m in mods] if states is None else states

    def f(x, states):
        new = []
        for m, s in zip(mods, states):
            x, s = m(x, training=False, state=s, rng=key)
            new.append(s)
        return x, new

    return jax.jit(f)(to_jax(x), states)


def call_leaf(m):
    """LinearNN and friends are models: take their modules."""
    if isinstance(m, pmm.Model):
        return [q for p in jax.tree.leaves(m.modules) for q in call_leaf(p)]
    return [m]


def agree(a, b, what, tol=1e-9):
    a, b = np_tree(a), np_tree(b)
    expect(gen.same_struct(a, b), f"{what}: different PyTree structure")
    for (p, v), (_, w) in zip(gen.flat(a), gen.flat(b)):
        sc = max(1.0, float(np.abs(w).max(initial=0)))
        close(v, w, tol, tol * sc, f"{what} at {p}")


@CHECK.sub("composition", st.fixed_dictionaries(dict(
    net=models.pipelines(lo=2, hi=5, extra=("counter", "scale", "scale", "shift")),
    box=models.boxes(), b=st.sampled_from([1, 2, 3]), seed=seeds)), 420)
def composition(c, ctx):
    net = c["net"]
    m, mods = models.model(net, c["box"], c["seed"] % 9973)
    x = models.data(net["in"], c["seed"], c["b"])
    flat = [q for md in mods for q in call_leaf(md)]
    out, st1 = m(to_jax(x), return_state=True)
    ref, rst = fold(flat, x)
    agree(out, ref, "model output")
    # the states of the modules, in order
    a = [np.asarray(v) for v in jax.tree.leaves(st1)]
    b = [np.asarray(v) for v in jax.tree.leaves(rst)]
    expect(len(a) == len(b), "number of state arrays")
    for v, w in zip(a, b):
        close(v, w, 1e-9, 1e-9, "returned state")
    # and the model's output is that of its parts glued together
    k = 1 + c["seed"] % (len(mods) - 1) if len(mods) > 1 else 0
    if k:
        mid, _ = fold([q for md in mods[:k] for q in call_leaf(md)], x)
        end, _ = fold([q for md in mods[k:] for q in call_leaf(md)], mid)
        agree(out, end, "composition of two parts")
    ctx.mark(len(mods) > 1 and (c["box"]["kind"] == "dict" or len(c["box"]["cuts"]) > 0))
    ctx.label(c["box"]["kind"], *{s for s in c["box"]["sub"]})


@CHECK.sub("single", st.fixed_dictionaries(dict(
    net=models.pipelines(lo=1, hi=1), b=st.sampled_from([1, 2, 3]), seed=seeds,
    how=st.sampled_from(["bare", "model", "twice"]))), 100)
def single(c, ctx):
    """A bare module, and models inside models, compute the module."""
    net = c["net"]
    mods = [models.make(d) for d in net["mods"]]
    if c["how"] == "bare" and len(mods) == 1:
        m = pmm.SequentialModel(mods[0])
    elif c["how"] == "twice":
        m = pmm.SequentialModel({"m": pmm.SequentialModel([pmm.SequentialModel(mods)])})
    else:
        m = pmm.SequentialModel([pmm.SequentialModel(tuple(mods))])
    with contextlib.redirect_stdout(io.StringIO()):
        m.compile(c["seed"] % 9973, models.spec_shape(net["in"]), verbose=c["seed"] % 3 == 1)
    models.widen(m)
    x = models.data(net["in"], c["seed"], c["b"])
    ref, _ = fold([q for md in mods for q in call_leaf(md)], x)
    agree(m(to_jax(x)), ref, "model output")
    ctx.mark(c["b"] > 1)
    ctx.label(c["how"])


@CHECK.sub("order", st.fixed_dictionaries(dict(
    perm=st.permutations(range(6)), n=st.sampled_from([3, 4, 5, 6]), box=models.boxes(),
    inner=models.boxes(), b=st.sampled_from([1, 2]), seed=seeds)), 160)
def order(c, ctx):
    """Modules that do not commute, in an order known to the harness."""
    co = [(0.5 + i, 0.3 * i - 0.4) for i in c["perm"][:c["n"]]]
    mods = [models.make({"m": "scale", "seed": 0}) for _ in co]
    for md, (a, q) in zip(mods, co):
        md.a, md.c = a, q
    half = len(mods) // 2
    tree = models.arrange(mods[:half], c["inner"])
    inner = pmm.SequentialModel(tree) if c["seed"] % 2 else tree
    m = pmm.SequentialModel(models.arrange([inner] + mods[half:], {**c["box"], "cuts": []}))
    x = 0.1 * models.data(models.leaf([2]), c["seed"], c["b"])
    m.compile(1, (2,))
    ref = x
    for a, q in co:
        ref = a * ref + q * ref * ref
    close(np.asarray(m(to_jax(x))), ref, 1e-7, 1e-7, "model output")
    ctx.mark()
    ctx.label(c["box"]["kind"], c["inner"]["kind"])
