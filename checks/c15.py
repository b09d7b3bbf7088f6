"""C15 parameters, state, precision and counting."""
import contextlib
import io
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, graphs, models, zoo
from pbt.core import Check, expect, fail, same
from pbt.gen import seeds
from pbt.sut import pmm, to_jax
from checks.c12 import out, same_tree

CHECK = Check(
    "C15",
    "random modules with all their options and random (nested, graph) models; "
    "random histories of setting parameters, state and precision, evaluation "
    "and freezing; the oracle is a plain copy of what was set (cast by numpy), "
    "and a second module or model that was given the same values; "
    "non-trivial: there are parameters or state, and a value was changed",
)
P32 = ["np32", "c64", "float32", "complex64", "single", "f32", "c64s", 32]
P64 = ["np64", "c128", "float64", "complex128", "double", "f64", "c128s", 64]
FORMS = {"np32": jnp.float32, "c64": jnp.complex64, "np64": jnp.float64, "c128": jnp.complex128, "c64s": "c64", "c128s": "c128"}
PREC = st.sampled_from(P32 + P64)


def form(p):
    return FORMS.get(p, p)


def cast(t, p):
    """Reference: precision of the floating point leaves, kind kept."""
    single = p in P32

    def one(v):
        v = np.asarray(v)
        if np.issubdtype(v.dtype, np.complexfloating):
            return v.astype(np.complex64 if single else np.complex128)
        if np.issubdtype(v.dtype, np.floating):
            return v.astype(np.float32 if single else np.float64)
        return v

    return jax.tree.map(one, t)


HERMITIAN = (pmm.modules.AffineHermitianMatrix, pmm.modules.ExpectationValueSum, pmm.modules.TransitionAmplitudeSum)


def floats(obj, params):
    """Independent real numbers in the parameters: two per complex number, n^2
    for a Hermitian n x n matrix."""
    if isinstance(obj, pmm.Model):
        mods, td = jax.tree.flatten(obj.modules)
        return sum(floats(q, v) for q, v in zip(mods, td.flatten_up_to(params)))
    if isinstance(obj, HERMITIAN):
        return sum(int(np.asarray(v).size) for v in jax.tree.leaves(params))
    return sum(int(np.asarray(v).size) * (2 if np.iscomplexobj(np.asarray(v)) else 1) for v in jax.tree.leaves(params))


def changed(p, f):
    """Other valid values of the same kind (Hermitian stays Hermitian)."""
    return jax.tree.map(lambda v: np.asarray(v * f).astype(v.dtype) if np.issubdtype(v.dtype, np.inexact) else np.asarray(v + 2), p)


OP = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("params"), f=st.sampled_from([0.5, 1.3, 0.7]), np=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("sibling"))),
    st.fixed_dictionaries(dict(op=st.just("state"), f=st.sampled_from([0.5, 2.0]))),
    st.fixed_dictionaries(dict(op=st.just("prec"), p=PREC, how=st.sampled_from(["set", "astype"]))),
    st.fixed_dictionaries(dict(op=st.just("bad"), p=st.sampled_from([16, "half", "int32", 0, "f16"]))),
    st.fixed_dictionaries(dict(op=st.just("odd"), leaf=st.integers(0, 5), how=st.sampled_from(["value", "shape"]))),
    st.fixed_dictionaries(dict(op=st.just("freeze"), on=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("part"), pick=st.integers(0, 9), on=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("call"))),
)

OPS = st.lists(OP, min_size=1, max_size=4).map(lambda v: v + [dict(op="call")])
# what is frozen can still be set
OPS = st.one_of(OPS, OPS, OPS.map(lambda v: [dict(op="freeze", on=True), dict(op="state", f=2.0), dict(op="params", f=0.7, np=False), *v]))


def single(o):
    """The modules of a (nested) model."""
    return [v for q in jax.tree.leaves(o.modules) for v in single(q)] if isinstance(o, pmm.Model) else [o]


def run(obj, make, ops, evaluate, ctx):
    """obj: ready module or model; make(): another one with other values."""
    par = jax.tree.map(np.asarray, obj.get_params())
    state = jax.tree.map(np.asarray, obj.get_state())
    touched = called = False
    parts = single(obj)
    flags = [bool(q.trainable) for q in parts]

    def check(what):
        same_tree(par, obj.get_params(), f"parameters after {what}")
        same_tree(state, obj.get_state(), f"state after {what}")
        n = obj.get_num_trainable_floats()
        want = floats(obj, par)
        # (None if modules are not connected, and therefore not compiled)
        loose = isinstance(obj, pmm.Model) and any(not q.is_ready() for q in jax.tree.leaves(obj.modules))
        expect(n is None if loose else n == want, lambda: f"number of trainable floats {n}, parameters have {want} ({what})")
        expect(obj.is_ready(), f"not ready after {what}")
        got = [bool(q.trainable) for q in parts]
        expect(got == flags, lambda: f"modules are trainable: {got}, expected {flags} after {what}")
        expect(bool(obj.trainable) == any(flags), lambda: f"trainable is {obj.trainable} with modules {flags} after {what}")
        if isinstance(obj, pmm.Model):
            tm = jax.tree.leaves(obj.get_trainable_modules())
            want = [any(q.trainable for q in single(o)) and bool(jax.tree.leaves(o.get_params())) for o in jax.tree.leaves(obj.modules)]
            expect(tm == want, lambda: f"trainable modules {tm}, expected {want} after {what}")

    check("compilation")
    for o in ops:
        k = o["op"]
        if k == "params":
            par = changed(par, o["f"])
            obj.set_params(jax.tree.map(jnp.asarray, par))
            touched = touched or bool(jax.tree.leaves(par))
        elif k == "sibling":
            other = make()
            par = jax.tree.map(np.asarray, other.get_params())
            obj.set_params(other.get_params())
            touched = touched or bool(jax.tree.leaves(par))
        elif k == "state":
            state = changed(state, o["f"])
            obj.set_state(jax.tree.map(jnp.asarray, state))
            touched = touched or bool(jax.tree.leaves(state))
        elif k == "prec":
            par, state = cast(par, o["p"]), cast(state, o["p"])
            if o["how"] == "set":
                obj.set_precision(form(o["p"]))
            else:
                expect(obj.astype(form(o["p"])) is obj, "astype does not return the object itself")
            touched = touched or bool(jax.tree.leaves([par, state]))
        elif k == "bad":
            try:
                obj.set_precision(o["p"])
            except ValueError:
                pass
            else:
                fail(f"precision {o['p']!r} accepted")
        elif k == "odd":
            # arbitrary values (or another shape) of one array: what a module
            # does not accept leaves it as it was, what it accepts is set
            flat, td = jax.tree.flatten(par)
            if isinstance(obj, pmm.Model) or not flat:
                continue
            j = o["leaf"] % len(flat)
            v = flat[j]
            if o["how"] == "shape":
                if not v.ndim:
                    continue
                v = np.concatenate([v, v[:1]])
            else:
                v = v + np.random.default_rng(j).normal(size=v.shape).astype(v.dtype)
            odd = jax.tree.unflatten(td, flat[:j] + [v] + flat[j + 1:])
            try:
                obj.set_params(jax.tree.map(jnp.asarray, odd))
            except Exception:
                pass
            else:
                same_tree(odd, obj.get_params(), f"parameters after {o}")
                obj.set_params(jax.tree.map(jnp.asarray, par))
        elif k == "freeze":
            r = obj.freeze() if o["on"] else obj.unfreeze()
            expect(r is obj, "freeze/unfreeze does not return the object itself")
            flags = [not o["on"]] * len(parts)
        elif k == "part":
            j = o["pick"] % len(parts)
            (parts[j].freeze if o["on"] else parts[j].unfreeze)()
            flags[j] = not o["on"]
        else:
            second = make()
            second.set_params(jax.tree.map(jnp.asarray, par))
            second.set_state(jax.tree.map(jnp.asarray, state))
            same_tree(evaluate(second), evaluate(obj), "output compared to an object given the same values")
            called = True
        check(str(o))
    ctx.mark(touched and (called or len(ops) > 1))


@CHECK.sub("module", st.fixed_dictionaries(dict(z=zoo.modules, ops=OPS, seed=seeds)), 320)
def module(c, ctx):
    z = c["z"]
    x = to_jax(zoo.data(z, 2))
    k = [c["seed"] % 1009]

    def make():
        m = zoo.make(z)
        k[0] += 1
        m.compile(jax.random.key(k[0]), zoo.shape(z))
        return m

    m = zoo.make(z)
    n = m.get_num_trainable_floats()
    if not m.is_ready():
        expect(n is None, f"{n} trainable floats before compilation")
        try:
            m.set_precision(64)
        except RuntimeError:
            pass
        else:
            fail("the precision of a module that is not ready was set")
    m.compile(jax.random.key(k[0]), zoo.shape(z))
    run(m, make, c["ops"], lambda o: out(o, x), ctx)
    ctx.label(z["d"]["m"])


@CHECK.sub("model", st.fixed_dictionaries(dict(
    net=models.pipelines(hi=4, extra=("scale", "counter", "counter", "noise")), box=models.boxes(), ops=OPS, seed=seeds)), 110)
def model(c, ctx):
    x = to_jax(models.data(c["net"]["in"], c["seed"], 3))
    k = [c["seed"] % 1009]

    def fresh():
        mods = [models.make(d) for d in c["net"]["mods"]]
        return pmm.SequentialModel(models.arrange(mods, c["box"])), mods

    def make():
        m, _ = fresh()
        k[0] += 1
        m.compile(k[0], models.spec_shape(c["net"]["in"]))
        return m

    m, mods = fresh()
    expect(m.get_num_trainable_floats() is None or all(q.is_ready() for q in mods), "trainable floats counted before compilation")
    m.compile(k[0], models.spec_shape(c["net"]["in"]))
    run(m, make, c["ops"], lambda o: o(x, rng=3), ctx)
    # the parameters of the model are those of its modules, in its structure
    same_tree([q.get_params() for q in mods],
              [p for p in per_module(m, m.get_params(), mods)], "parameters per module")
    same_tree([q.get_state() for q in mods], [p for p in per_module(m, m.get_state(), mods)], "state per module")
    # one container too few
    if len(jax.tree.leaves(m.modules)) > 1:
        try:
            m.set_params([])
        except ValueError:
            pass
        else:
            fail("parameters of the wrong structure accepted")
    ctx.label("model")


def per_module(m, vals, known):
    """Values of the modules in order of application, sub-models opened."""
    mods, td = jax.tree.flatten(m.modules)
    for q, v in zip(mods, td.flatten_up_to(vals)):
        if any(q is k for k in known):
            yield v
        else:
            yield from per_module(q, v, known)


@CHECK.sub("graph", st.fixed_dictionaries(dict(g=graphs.graphs(max_nodes=4), ops=OPS, seed=seeds)), 70)
def graph(c, ctx):
    g = c["g"]
    x = to_jax(graphs.data(g, c["seed"] % 99991, 2))
    k = [c["seed"] % 1009]

    def make():
        m, _ = graphs.build(g)
        k[0] += 1
        m.compile(k[0], graphs.in_shape(g))
        return m

    m = make()
    # (modules that are not connected stay uncompiled, and keep the precision
    # from being set)
    ops = c["ops"]
    if any(not q.is_ready() for q in jax.tree.leaves(m.modules)):
        ops = [o for o in ops if o["op"] != "prec"]
    run(m, make, ops, lambda o: o(x, rng=3), ctx)


# ----------------------------------------------- without double precision
@CHECK.sub("single", st.fixed_dictionaries(dict(
    net=models.pipelines(hi=3, extra=("scale", "counter")), box=models.boxes(), p=PREC, how=st.sampled_from(["set", "astype"]), train=st.booleans(),
    seed=seeds)), 50)
def single_only(c, ctx):
    """JAX as it is by default, without double precision: 64-bit precision is
    refused, everything stays 32 bit, and the results are those of double
    precision up to rounding."""
    x = models.data(c["net"]["in"], c["seed"], 3)

    def make():
        m = pmm.SequentialModel(models.arrange([models.make(d) for d in c["net"]["mods"]], c["box"]))
        m.compile(c["seed"] % 1009, models.spec_shape(c["net"]["in"]))
        return m

    with jax.enable_x64(False), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = make()
        before = jax.tree.map(np.asarray, m.get_params())
        ok = c["p"] in P32
        try:
            m.set_precision(form(c["p"])) if c["how"] == "set" else m.astype(form(c["p"]))
        except ValueError:
            expect(not ok, f"precision {c['p']!r} refused")
        else:
            expect(ok, f"precision {c['p']!r} accepted without 64-bit support")
        same_tree(before, m.get_params(), "parameters")
        X = to_jax(x)
        y = m(X)
        if c["train"] and jax.tree.leaves(before) and not any(np.iscomplexobj(v) for v in jax.tree.leaves(y)):
            with contextlib.redirect_stdout(io.StringIO()):
                m.train(X, jax.tree.map(lambda v: v + 0.5, y), epochs=1, lr=1e-3, batch_size=2, verbose=False, batch_rng=1)
            y = m(X)
        wide = [str(v.dtype) for v in jax.tree.leaves([m.get_params(), m.get_state(), y]) if v.dtype in (np.float64, np.complex128)]
        expect(not wide, f"64-bit values {wide}")
        y, par, state = (jax.tree.map(np.asarray, t) for t in (y, m.get_params(), m.get_state()))
    n = make()
    n.set_params(jax.tree.map(jnp.asarray, par))
    n.set_state(jax.tree.map(jnp.asarray, state))
    z = jax.tree.map(np.asarray, n(to_jax(x)))
    expect(jax.tree.structure(y) == jax.tree.structure(z), "structure of the output")
    r = np.random.default_rng(c["seed"])
    z2 = jax.tree.map(np.asarray, n(to_jax(gen.tmap(lambda v: v * (1 + 1e-6 * r.standard_normal(v.shape)), x))))
    for a, b, b2 in zip(*map(jax.tree.leaves, (y, z, z2))):
        if not b.size or not np.all(np.isfinite(b)) or np.abs(b - b2).max() > 1e-4 * (1 + np.abs(b).max()):
            continue      # ill-conditioned
        expect(a.shape == b.shape and np.all(np.abs(a - b) <= 2e-2 * (1 + np.abs(b).max())),
               lambda: f"in single precision {a.ravel()[:4]}, in double precision {b.ravel()[:4]}")
    ctx.mark(bool(jax.tree.leaves(before)))
    ctx.label("train" if c["train"] else "evaluate")
