"""C20 randomness."""
import random

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, graphs, models, zoo
from pbt import usermods as U
from pbt.core import Check, close, expect, fail
from pbt.gen import seeds
from pbt.sut import pmm, to_jax
from checks.c12 import same_tree

CHECK = Check(
    "C20",
    "random modules, nested and graph models compiled with random seeds, "
    "evaluated and trained with modules that draw random numbers and record "
    "them; the oracles are repetition with the same seed (after disturbing the "
    "global generators), and that no two draws coincide; "
    "non-trivial: at least two values were drawn or two random parameter "
    "arrays were initialized",
)


def disturb(k):
    random.seed(k)
    np.random.seed(k % 1000)


def arrays(obj):
    """(name, values) of the independent pieces of the parameters: stacked
    matrices one by one."""
    out = []
    for p, v in gen.flat(jax.tree.map(np.asarray, obj.get_params())) if jax.tree.leaves(obj.get_params()) else []:
        if v.ndim >= 3:
            v = v.reshape(-1, *v.shape[-2:])
            out += [(f"{p}[{i}]", v[i]) for i in range(len(v))]
        else:
            out.append((str(p), v))
    return out


def numbers(v):
    v = np.concatenate([np.abs(np.real(v)).ravel(), np.abs(np.imag(v)).ravel()])
    return set(v[v != 0].tolist())


def fresh(a, b, what):
    """Pieces that depend on the seed share no numbers (one coincidence is
    possible in single precision)."""
    rnd = [(n, u) for (n, u), (_, v) in zip(a, b) if u.shape == v.shape and not np.array_equal(u, v)]
    for i in range(len(rnd)):
        for j in range(i):
            both = numbers(rnd[i][1]) & numbers(rnd[j][1])
            expect(len(both) < 2, lambda: f"{what}: {rnd[i][0]} and {rnd[j][0]} were initialized with the same numbers {sorted(both)[:3]}")
    return rnd


def check_init(make, shape, seed, ctx, what):
    one, two, three, four = make(), make(), make(), make()
    disturb(seed)
    one.compile(seed, shape)
    disturb(seed + 7)
    two.compile(seed, shape)
    three.compile(jax.random.key(seed), shape)
    four.compile(seed + 1, shape)
    same_tree(one.get_params(), two.get_params(), f"{what} compiled with the same seed")
    same_tree(one.get_params(), three.get_params(), f"{what} compiled with the seed as a key")
    a, b = arrays(one), arrays(four)
    rnd = fresh(a, b, what)
    ctx.mark(len(rnd) > 1)
    return one


@CHECK.sub("modules", st.fixed_dictionaries(dict(z=st.one_of(zoo.modules.filter(lambda z: "mag" in z["d"]), zoo.modules), copies=st.sampled_from([2, 3]), seed=seeds)), 160)
def modules(c, ctx):
    """Several copies of the same module in one model."""
    z = c["z"]
    seed = c["seed"] % 100003
    m = zoo.make(z)
    # the module alone (it takes keys only)
    mods = [zoo.make(z) for _ in range(3)]
    disturb(seed)
    mods[0].compile(jax.random.key(seed), zoo.shape(z))
    disturb(seed + 1)
    mods[1].compile(jax.random.key(seed), zoo.shape(z))
    mods[2].compile(jax.random.key(seed + 1), zoo.shape(z))
    same_tree(mods[0].get_params(), mods[1].get_params(), "module compiled with the same key")
    rnd = fresh(arrays(mods[0]), arrays(mods[2]), z["d"]["m"])
    # several of them in a graph, and in sequence where the output fits
    names = [f"n{i}" for i in range(c["copies"])]

    def net():
        return pmm.NonSequentialModel({n: zoo.make(z) for n in names},
                                      {"input": names, **{n: f"output.{n}" for n in names}})

    check_init(net, zoo.shape(z), seed, ctx, "graph model of equal modules")
    if m.get_output_shape(zoo.shape(z)) == zoo.shape(z):
        check_init(lambda: pmm.SequentialModel([zoo.make(z) for _ in names]), zoo.shape(z), seed, ctx, "sequence of equal modules")
    # the magnitude of the initial values
    if "mag" in z["d"] and rnd and z["d"]["m"] != "prelu":
        other = zoo.make(dict(z, d=dict(z["d"], mag=2 * z["d"]["mag"])))
        other.compile(jax.random.key(seed), zoo.shape(z))
        names_ = {n for n, _ in rnd}
        for (n, u), (_, v) in zip(arrays(mods[0]), arrays(other)):
            if n in names_:
                close(2 * u, v, 1e-5, 1e-7, f"{n} with twice the initial magnitude")
    ctx.label(z["d"]["m"])


@CHECK.sub("nested", st.fixed_dictionaries(dict(net=models.pipelines(hi=5), box=models.boxes(), seed=seeds)), 60)
def nested(c, ctx):
    def make():
        return pmm.SequentialModel(models.arrange([models.make(d) for d in c["net"]["mods"]], c["box"]))

    check_init(make, models.spec_shape(c["net"]["in"]), c["seed"] % 100003, ctx, "nested model")


# ------------------------------------------------------------------- calls
def tree(kind, mk):
    """Models with Draw modules at several depths: (model, number of draws)."""
    S, N = pmm.SequentialModel, pmm.NonSequentialModel
    if kind == "seq":
        return S([mk(), mk(), mk()])
    if kind == "dict":
        return S({"a": mk(), "b": [mk(), (mk(),)]})
    if kind == "seqseq":
        return S([mk(), S([mk(), mk()]), S([mk()])])
    if kind == "graph":
        return N({"A": mk(), "B": mk(), "C": mk()}, {"input": ["A", "B"], "A": "C.x", "B": "C.y", "C": "output"})
    if kind == "seqgraph":
        return S([mk(), N({"A": mk(), "B": mk()}, {"input": "A", "A": "B", "B": "output"}), mk()])
    if kind == "graphseq":
        return N({"A": S([mk(), mk()]), "B": S([mk(), mk()])}, {"input": ["A", "B"], "A": "output.a", "B": "output.b"})
    return N({"A": N({"P": mk(), "Q": mk()}, {"input": ["P", "Q"], "P": "output.p", "Q": "output.q"}), "B": mk()},
             {"input": "A", "A": "B", "B": "output"})


KIND = st.sampled_from(["seq", "graph", "seqseq", "dict", "seqgraph", "graphseq", "graphgraph"])


def draws(state):
    """The numbers recorded by every Draw module."""
    lv = jax.tree.leaves(state)
    return [np.asarray(d)[: int(np.asarray(n)[0])] for n, d in zip(lv[::2], lv[1::2])]


def distinct(vals, what):
    v = np.concatenate(vals)
    expect(len(set(v.tolist())) == len(v), lambda: f"{what}: random numbers were repeated: {[x.tolist() for x in vals]}")


def key_data(k):
    return np.asarray(jax.random.key_data(k)).tolist()


@CHECK.sub("calls", st.fixed_dictionaries(dict(
    kind=KIND, seed=seeds, how=st.sampled_from(["ctor", "set", "setkey"]),
    ops=st.lists(st.fixed_dictionaries(dict(
        rng=st.sampled_from(["none", "int", "key", "int", "none"]), r=st.integers(0, 5), what=st.sampled_from(["call", "call", "state", "gin", "update"]),
        n=st.sampled_from([1, 2, 3]))), min_size=2, max_size=5))), 70)
def calls(c, ctx):
    seed = c["seed"] % 100003

    def mk():
        m = tree(c["kind"], U.Draw)
        if c["how"] == "set":
            m.set_rng(seed)
        elif c["how"] == "setkey":
            m.set_rng(jax.random.key(seed))
        else:
            m.rng = pmm.SequentialModel([U.Draw()], rng=seed).get_rng()
        m.compile(3, (2,))
        return m

    m, other = mk(), mk()
    key = key_data(m.get_rng())
    expect(key == key_data(jax.random.key(seed)), "the key is not the one of the seed")
    seen = {}
    zero = m.get_state()
    for o in c["ops"]:
        rng = {"none": None, "int": o["r"], "key": jax.random.key(o["r"])}[o["rng"]]
        name = "model" if rng is None else o["r"]
        disturb(o["r"] + 1)
        x = jnp.asarray(gen.arr(o["r"], [o["n"], 2]))
        if o["what"] == "gin":
            m.grad_input(x, rng=rng)
        elif o["what"] == "call":
            y = m(x, rng=rng)
            r = [np.asarray(v) for v in jax.tree.leaves(y)]
            q = [np.asarray(v) for v in jax.tree.leaves(other(x, rng=rng))]
            for a, b in zip(r, q):
                close(a, b, 0, 0, "prediction of an equal model with the same key")
            if o["rng"] == "int":
                q = [np.asarray(v) for v in jax.tree.leaves(m(x, rng=jax.random.key(o["r"])))]
                for a, b in zip(r, q):
                    close(a, b, 0, 0, "prediction with a seed and with the key of this seed")
            z = [np.asarray(v) for v in jax.tree.leaves(m(x * 0, rng=rng))]
            for v in z:
                expect(np.all(v == v[:1]), "the draw differs between samples")
        elif o["what"] == "state":
            _, s = m(x, rng=rng, return_state=True)
            d = draws(s)
            distinct(d, f"one call of a {c['kind']} model")
            if name in seen:
                expect(all(np.array_equal(a, b) for a, b in zip(seen[name], d)), f"other random numbers with the same key {name}")
            for k, v in seen.items():
                if k != name and not (k == "model" and seed == name) and not (name == "model" and seed == k):
                    distinct(v + d, f"keys {k} and {name}")
            seen[name] = d
        else:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m(x, rng=rng, update_state=True)
            expect(all(len(d) == 1 for d in draws(m.get_state())), "the state was not updated")
            m.set_state(zero)
        same_tree(zero, m.get_state(), f"state after {o['what']}")
        expect(key_data(m.get_rng()) == key, f"the key of the model was changed by {o['what']}")
    ctx.mark(True)
    ctx.label(c["kind"])


# ---------------------------------------------------------------- training
@CHECK.sub("training", st.fixed_dictionaries(dict(
    kind=st.sampled_from(["seq", "graph", "seqgraph"]), seed=seeds, n=st.sampled_from([3, 4, 5]), batch=st.sampled_from([1, 2, 4]), epochs=st.sampled_from([1, 2, 3]), val=st.booleans(),
    twice=st.booleans())), 20)
def training(c, ctx):
    seed = c["seed"] % 100003
    x = jnp.asarray(gen.arr(seed, [c["n"], 2]))
    y = 0.3 * x
    shape_y = (lambda v: v) if c["kind"] != "graph" else (lambda v: {"x": v, "y": v})

    def run(rng, k):
        disturb(k)
        first = tree(c["kind"], U.Draw)
        m = pmm.SequentialModel([U.Scale(0.9, 0.1), first], rng=rng)
        kw = dict(X_val=x, Y_val=shape_y(y)) if c["val"] else {}
        out = []
        for _ in range(2 if c["twice"] else 1):
            m.train(x, shape_y(y), lr=1e-3, batch_size=c["batch"], epochs=c["epochs"], batch_rng=seed, initialization_seed=seed, verbose=False, **kw)
            out.append(draws(m.get_state()))
        return m, out

    m, d = run(seed, 1)
    m2, d2 = run(seed, 2)
    steps = -(-c["n"] // c["batch"])
    for a, b in zip(d, d2):
        distinct(a, "training steps")
        expect(all(np.array_equal(u, v) for u, v in zip(a, b)), "training with the same seeds drew other numbers")
        expect(all(len(u) % steps == 0 for u in a), lambda: f"{[len(u) for u in a]} draws for {steps} steps per epoch")
    same_tree(m.get_params(), m2.get_params(), "training with the same seeds")
    expect(key_data(m.get_rng()) == key_data(m2.get_rng()), "other key after training with the same seeds")
    expect(key_data(m.get_rng()) != key_data(jax.random.key(seed)), "the key was not advanced by training")
    _, d3 = run(seed + 1, 1)
    if all(len(u) for u in d[0]) and all(len(u) for u in d3[0]):
        distinct(d[0] + d3[0], "training with another seed")
    ctx.mark(any(len(u) for u in d[0]))
    ctx.label(c["kind"])
