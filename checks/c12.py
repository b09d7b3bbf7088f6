"""C12 saving, loading, serializing and copying."""
import contextlib
import io
import pathlib
import tempfile

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, graphs, models, zoo
from pbt import usermods as U  # noqa: F401
from pbt.core import Check, Discard, expect, near, same
from pbt.gen import seeds
from pbt.sut import M, call, pmm, to_jax

CHECK = Check(
    "C12",
    "random modules with all their options, random (nested, trained, partly "
    "frozen, stateful, double precision, uncompiled) models, every way of "
    "writing and reading them; the oracle is equality, bit for bit, of "
    "parameters, states, flags, random key, optimizer state, predictions, "
    "derivatives and further training; non-trivial: trained or changed after "
    "compilation, or several modules",
)
WAYS = ["str", "ext", "path", "pathext", "file", "handles"]


def bits(t):
    return [np.asarray(v) for v in jax.tree.leaves(t)]


def same_tree(a, b, what):
    expect(jax.tree.structure(a) == jax.tree.structure(b),
           lambda: f"{what}: structure {jax.tree.structure(b)}, was {jax.tree.structure(a)}")
    for p, q in zip(bits(a), bits(b)):
        expect(same(p, q), lambda: f"{what}: {q!r} was {p!r}")


def near_tree(a, b, what):
    expect(jax.tree.structure(a) == jax.tree.structure(b),
           lambda: f"{what}: structure {jax.tree.structure(b)}, was {jax.tree.structure(a)}")
    for p, q in zip(bits(a), bits(b)):
        expect(near(p, q), lambda: f"{what}: {q!r} was {p!r}")


def hyper(h):
    """Comparable form of hyperparameters."""
    if isinstance(h, dict):
        return {k: hyper(v) for k, v in h.items()}
    if isinstance(h, (list, tuple)):
        return [type(h).__name__, [hyper(v) for v in h]]
    if hasattr(h, "dtype"):
        if jnp.issubdtype(h.dtype, jax.dtypes.prng_key):
            return np.asarray(jax.random.key_data(h)).tolist()
        a = np.asarray(h)
        return [str(a.dtype), list(a.shape), a.tolist()] if a.ndim else a.tolist()
    if isinstance(h, pmm.modules.BaseModule):
        return [type(h).__name__, hyper(h.get_hyperparameters())]
    return h if isinstance(h, (int, float, str, complex, type(None))) else repr(h)


def store(obj, way, compressed, cls, into=None, key="m"):
    """Write obj and read it back."""
    with tempfile.TemporaryDirectory(prefix="c12-") as d:
        base = pathlib.Path(d) / key
        save = obj.save_compressed if compressed else obj.save
        if way in ("file", "handles"):
            with open(str(base) + ".npz", "wb") as fh:
                save(fh)
            src = str(base) + ".npz"
            if way == "handles":
                src = open(src, "rb")
        else:
            src = {"str": str(base), "ext": str(base) + ".npz", "path": base, "pathext": pathlib.Path(str(base) + ".npz")}[way]
            save(src)
        if into is not None:
            into.load(src)
            return into
        return cls.from_file(src)


def flags(m):
    """Trainable flag of every module, nested models included."""
    if isinstance(m, pmm.Model):
        return [flags(q) for q in jax.tree.leaves(m.modules)]
    return bool(m.trainable)


def out(m, x):
    return m(x) if isinstance(m, pmm.Model) else call(m, x)


def wreck(h, seen=None):
    """Change in place everything an object lets one change in place."""
    seen = {} if seen is None else seen
    if id(h) in seen:
        return
    seen[id(h)] = h  # (kept alive: the number must not be given to another)
    if isinstance(h, M.BaseModule):
        wreck(h.get_hyperparameters(), seen)
        if h.is_ready():
            wreck(h.get_params(), seen)
            wreck(h.get_state(), seen)
    elif isinstance(h, (list, tuple, dict)):
        for v in (h.values() if isinstance(h, dict) else h):
            wreck(v, seen)
        if isinstance(h, (list, dict)):
            h.clear()
    elif isinstance(h, np.ndarray) and h.flags.writeable and h.dtype.kind in "fciu":
        h[...] = 7


# ------------------------------------------------------------------ modules
@CHECK.sub("module", st.fixed_dictionaries(dict(
    z=zoo.modules, ready=st.sampled_from([True, True, False]), touch=st.booleans(), frozen=st.booleans(),
    how=st.sampled_from(["copy", "deepcopy", "serialize", "save"]), way=st.sampled_from(WAYS), comp=st.booleans(), seed=seeds)), 360)
def module(c, ctx):
    z = c["z"]
    m = zoo.make(z)
    x = to_jax(zoo.data(z, 2))
    if c["ready"]:
        m.compile(jax.random.key(c["seed"] % 1009), zoo.shape(z))
        if c["touch"]:
            # a parameter value that no constructor makes
            m.set_params(jax.tree.map(lambda p: (p * 1.5).astype(p.dtype), m.get_params()))
            s = m.get_state()
            if jax.tree.leaves(s):
                m.set_state(jax.tree.map(lambda v: v + 3, s))
    # (contractions and constants need given arrays if they are not trainable)
    if c["frozen"] and (c["ready"] or z["d"]["m"] not in ("einsum", "matmul", "constant")):
        m.freeze()
    tr = bool(m.trainable)
    hp = hyper(m.get_hyperparameters())
    name = m.name
    if c["how"] == "save":
        r = store(pmm.SequentialModel([m]), c["way"], c["comp"], pmm.SequentialModel).modules
        expect(isinstance(r, list) and len(r) == 1, f"modules read back: {r!r}")
        r = r[0]
    elif c["how"] == "serialize":
        data = m.serialize()
        # the data can be used again whatever happens to what was made of them
        first = type(m)()
        first.deserialize(data)
        wreck(first)
        r = type(m)()
        r.deserialize(data)
    else:
        r = getattr(m, c["how"])()
    hp0 = hp
    expect(type(r) is type(m) and r is not m, f"type {type(r)}")
    expect(hyper(r.get_hyperparameters()) == hp, lambda: f"hyperparameters {hyper(r.get_hyperparameters())}, were {hp}")
    expect(r.name == name, f"name {r.name}, was {name}")
    expect(bool(r.trainable) == tr, f"trainable {r.trainable}, was {tr}")
    expect(r.is_ready() == m.is_ready(), "is_ready changed")
    if not m.is_ready():
        expect(not c["ready"], "compiled module is not ready")
        m.compile(jax.random.key(c["seed"] % 1009), zoo.shape(z))
        r.compile(jax.random.key(c["seed"] % 1009), zoo.shape(z))
    elif not c["ready"]:
        # ready without compilation: compiling must still be possible
        m.compile(jax.random.key(5), zoo.shape(z))
        r.compile(jax.random.key(5), zoo.shape(z))
    same_tree(m.get_params(), r.get_params(), "parameters")
    same_tree(m.get_state(), r.get_state(), "state")
    expect(m.get_num_trainable_floats() == r.get_num_trainable_floats(), "number of trainable floats")
    near_tree(out(m, x), out(r, x), "output")
    # independence
    keep, tr = bits(m.get_params()), bool(m.trainable)
    if keep:
        r.set_params(jax.tree.map(lambda p: p * 2, r.get_params()))
        r.trainable = not tr
        expect(all(same(a, b) for a, b in zip(keep, bits(m.get_params()))) and bool(m.trainable) == tr,
               "changing the copy changed the original")
    # the two share nothing that can be changed in place
    hp, keep, st_ = hyper(r.get_hyperparameters()), bits(r.get_params()), bits(r.get_state())
    y = out(r, x)
    wreck(m)
    expect(hyper(r.get_hyperparameters()) == hp, "hyperparameters of the copy follow those of the original")
    expect(all(same(a, b) for a, b in zip(keep + st_, bits(r.get_params()) + bits(r.get_state()))), "values of the copy follow those of the original")
    near_tree(y, out(r, x), "output of the copy, after changes of the original")
    if c["how"] == "serialize":
        late = type(m)()
        late.deserialize(data)
        expect(hyper(late.get_hyperparameters()) == hp0, "hyperparameters in serialized data follow those of the module")
    ctx.mark(c["ready"] and (bool(keep) or len(hp) > 1))
    ctx.label(z["d"]["m"], c["how"])


# ------------------------------------------------------------------- models
def facts(m, x, tgt):
    """Everything observable about a model, without changing it."""
    f = dict(params=m.get_params(), state=m.get_state(), out=m(x), rng=jax.random.key_data(m.get_rng()),
             flags=flags(m), count=m.get_num_trainable_floats(),
             shape=repr(m.get_output_shape(m.input_shape)),
             opt=None if getattr(m, "_optimizer_state", None) is None else [bits(list(vars(o).values()) if hasattr(o, "__dict__") else o) for o in _opts(m)])
    return f


def _opts(m):
    return jax.tree.leaves(m._optimizer_state, is_leaf=lambda o: hasattr(o, "epoch"))


def compare(a, b):
    for k in a:
        if k in ("flags", "count", "shape"):
            expect(a[k] == b[k], lambda: f"{k}: {b[k]}, was {a[k]}")
        elif k == "opt":
            expect((a[k] is None) == (b[k] is None), "optimizer state lost")
            if a[k] is not None:
                expect(len(a[k]) == len(b[k]) and all(len(p) == len(q) and all(same(u, v) for u, v in zip(p, q)) for p, q in zip(a[k], b[k])),
                       "optimizer state changed")
        elif k == "out":
            near_tree(a[k], b[k], k)
        else:
            same_tree(a[k], b[k], k)


TRAIN = st.fixed_dictionaries(dict(epochs=st.sampled_from([0, 1, 2]), again=st.booleans(), frozen=st.integers(0, 15),
                                   prec=st.sampled_from([None, None, 64, 32]), update=st.booleans()))


def fit(m, x, tgt, epochs, resume, b):
    with contextlib.redirect_stdout(io.StringIO()):
        m.train(x, tgt, lr=1e-2, epochs=epochs, batch_size=b, resume=resume, verbose=False, batch_rng=7)


def prepare(m, x, tgt, t, leaves):
    for i, q in enumerate(leaves):
        if t["frozen"] >> i & 1:
            q.freeze()
    # (modules that the graph does not use are never compiled)
    if t["prec"] and all(q.is_ready() for q in leaves):
        m.set_precision(t["prec"])
    if t["epochs"]:
        fit(m, x, tgt, t["epochs"], False, 2)
    if t["update"]:
        m(x, update_state=True)


def reread(m, how, way, comp, seed):
    cls = type(m)
    if how == "copy":
        return m.copy()
    if how == "serialize":
        # one dictionary can be read any number of times
        data = m.serialize()
        for _ in range(1 + seed % 2):
            r = cls()
            r.deserialize(data, strict_package_version=bool(seed // 2 % 2))
        return r
    if how == "load":
        # into an object that already was something else
        r = cls() if cls is not pmm.SequentialModel else pmm.SequentialModel([U.Scale(3.0), U.Scale(2.0)])
        if cls is pmm.SequentialModel:
            r.compile(0, (2,))
            r(jnp.ones((1, 2)))
        r.name = "other"
        return store(m, way, comp, cls, into=r)
    r = store(m, way, comp, cls)
    if how == "twice":
        r = store(r, way, not comp, cls)
    return r


HOW = st.sampled_from(["file", "file", "twice", "load", "serialize", "copy"])


def names(m):
    return [m.name, [names(q) for q in jax.tree.leaves(m.modules)] if isinstance(m, pmm.Model) else None]


def model_case(m, x, tgt, c, ctx, leaves):
    if c["name"]:
        m.name = c["name"]
        for k, q in enumerate(jax.tree.leaves(m.modules)):
            if isinstance(q, pmm.Model):
                q.name = f"{c['name']} {k}"
    if not any(jax.tree.leaves(q.get_params()) for i, q in enumerate(leaves) if not c["t"]["frozen"] >> i & 1):
        # nothing to train
        c = {**c, "t": {**c["t"], "epochs": 0}}
    prepare(m, x, tgt, c["t"], leaves)
    before = facts(m, x, tgt)
    r = reread(m, c["how"], c["way"], c["comp"], c["seed"])
    compare(before, facts(m, x, tgt))  # saving does not change the model
    expect(type(r) is type(m), f"read back as {type(r)}")
    compare(before, facts(r, x, tgt))
    expect(names(r) == names(m), lambda: f"names {names(r)}, were {names(m)}")
    # (dictionaries of modules come back with their keys sorted)
    expect(sorted(repr(r).split("\n")) == sorted(repr(m).split("\n")), lambda: f"description changed: {r!r} was {m!r}")
    if c["t"]["again"] and c["t"]["epochs"]:
        # training goes on as if nothing had happened, and independently
        fit(r, x, tgt, 2, True, 2)
        compare(before, facts(m, x, tgt))
        fit(m, x, tgt, 2, True, 2)
        compare(facts(m, x, tgt), facts(r, x, tgt))
    # the two share nothing that can be changed in place
    rest = facts(r, x, tgt)
    text = repr(r)
    wreck(m)
    compare(rest, facts(r, x, tgt))
    expect(repr(r) == text, lambda: f"the copy follows changes of the original: {r!r}, was {text}")
    if isinstance(r, pmm.NonSequentialModel):
        expect(r.get_execution_order(), "the copy follows changes of the original")
    ctx.mark(c["t"]["epochs"] or c["t"]["prec"] or len(leaves) > 1)
    ctx.label(c["how"], c["way"] if c["how"] in ("file", "twice", "load") else "memory", f"epochs{c['t']['epochs']}")


COMMON = dict(t=TRAIN, name=st.sampled_from([None, None, "model", "a.b \u03b1"]), how=HOW, way=st.sampled_from(WAYS), comp=st.booleans(), seed=seeds)


def targets(m, x):
    return jax.tree.map(lambda v: v + 0.5, m(x))


@CHECK.sub("sequential", st.fixed_dictionaries(dict(
    net=models.pipelines(hi=3, extra=("scale", "scale", "counter")), box=models.boxes(), **COMMON)), 90)
def sequential(c, ctx):
    mods = [models.make(d) for d in c["net"]["mods"]]
    m = pmm.SequentialModel(models.arrange(mods, c["box"]), rng=c["seed"] % 1013)
    m.compile(c["seed"] % 997, models.spec_shape(c["net"]["in"]))
    x = to_jax(models.data(c["net"]["in"], c["seed"], 3))
    model_case(m, x, targets(m, x), c, ctx, mods)


@CHECK.sub("light", st.fixed_dictionaries(dict(
    kinds=st.lists(st.sampled_from(["scale", "counter", "noise", "shift", "bias", "prelu"]), min_size=1, max_size=5),
    box=models.boxes(), **COMMON)), 90)
def light(c, ctx):
    mods = [models.make({"m": k, "seed": i + 1, "scalar": True, "single": True, "w": 0.5, "only": False})
            for i, k in enumerate(c["kinds"])]
    m = pmm.SequentialModel(models.arrange(mods, c["box"]), rng=c["seed"] % 1013)
    m.compile(c["seed"] % 997, (2,))
    x = to_jax(gen.arr(c["seed"], (3, 2)))
    model_case(m, x, targets(m, x), c, ctx, mods)


@CHECK.sub("graph", st.fixed_dictionaries(dict(g=graphs.graphs(max_nodes=4), **COMMON)), 80)
def graph(c, ctx):
    g = c["g"]
    m, mods = graphs.build(g)
    m.compile(c["seed"] % 97, graphs.in_shape(g))
    if not all(q.is_ready() for q in jax.tree.leaves(m.modules) if isinstance(q, pmm.Model)):
        raise Discard  # models that are not connected stay uncompiled, and refuse to be saved
    x = to_jax(graphs.data(g, c["seed"], 3))
    model_case(m, x, targets(m, x), c, ctx, jax.tree.leaves(m.modules))


@CHECK.sub("uncompiled", st.fixed_dictionaries(dict(
    net=models.pipelines(hi=3, extra=("scale",)), box=models.boxes(), how=HOW, way=st.sampled_from(WAYS), comp=st.booleans(), seed=seeds)), 60)
def uncompiled(c, ctx):
    """A model that has not been compiled yet."""
    m = pmm.SequentialModel(models.arrange([models.make(d) for d in c["net"]["mods"]], c["box"]), rng=c["seed"] % 1013)
    r = reread(m, c["how"], c["way"], c["comp"], c["seed"])
    s = c["seed"] % 997
    m.compile(s, models.spec_shape(c["net"]["in"]))
    r.compile(s, models.spec_shape(c["net"]["in"]))
    x = to_jax(models.data(c["net"]["in"], c["seed"], 2))
    compare(facts(m, x, None), facts(r, x, None))
    ctx.mark(len(c["net"]["mods"]) > 1)


# ----------------------------------------------------------------- versions
def spots(data, path=()):
    """Every dictionary of a module or model in the serialized form."""
    if isinstance(data, dict):
        if "package_version" in data:
            yield data
        for v in data.values():
            yield from spots(v)
    elif isinstance(data, (list, tuple)):
        for v in data:
            yield from spots(v)


@CHECK.sub("version", st.fixed_dictionaries(dict(
    kinds=st.lists(st.sampled_from(["scale", "counter", "prelu", "old"]), min_size=1, max_size=4), box=models.boxes(),
    what=st.sampled_from(["same", "package", "package", "module", "module"]), spot=st.integers(0, 30), ver=st.sampled_from(["0.0.0a1", "99.0.0"]),
    strict=st.booleans(), seed=seeds)), 60)
def version(c, ctx):
    """Files of another version of the package, or of a module."""
    mods = [U.Upgraded(1.0 + i) if k == "old" else models.make({"m": k, "seed": i + 1, "w": 0.5, "single": True, "scalar": True})
            for i, k in enumerate(c["kinds"])]
    m = pmm.SequentialModel(models.arrange(mods, c["box"]), rng=c["seed"] % 1013)
    m.compile(c["seed"] % 997, (2,))
    x = to_jax(gen.arr(c["seed"], (3, 2)))
    before = facts(m, x, None)
    data = m.serialize()
    old = None
    if c["what"] == "package":
        here = list(spots(data))
        here[c["spot"] % len(here)]["package_version"] = c["ver"]
    elif c["what"] == "module":
        here = [d for d in spots(data) if "module_version" in d and "q" in (d.get("hyperparameters") or {})]
        if not here:
            raise Discard
        old = here[c["spot"] % len(here)]
        old["module_version"] = c["ver"]
        # the format of that version
        old["hyperparameters"] = {"sqrt": float(np.sqrt(old["hyperparameters"]["q"]))}
    r = pmm.SequentialModel()
    if c["what"] == "package" and c["strict"]:
        try:
            r.deserialize(data, strict_package_version=True)
        except ValueError:
            pass
        else:
            expect(False, f"data of package version {c['ver']} accepted in spite of strict_package_version")
    else:
        r.deserialize(data, strict_package_version=c["strict"])
        same_tree(before["params"], r.get_params(), "params")
        same_tree(before["state"], r.get_state(), "state")
        expect(all(np.allclose(a, b, rtol=1e-12) for a, b in zip(bits(before["out"]), bits(r(x)))), "output changed")
    ctx.mark(c["what"] != "same" and len(mods) > 1)
    ctx.label(c["what"], "strict" if c["strict"] else "lax")
