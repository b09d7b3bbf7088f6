"""C11 derivatives with respect to inputs and parameters."""
import jax
import numpy as np
from hypothesis import strategies as st

from pbt import gen, graphs, models
from pbt import usermods as U
from pbt.core import Check, Discard, close, expect
from pbt.gen import seeds
from pbt.sut import np_tree, pmm, to_jax

from .c07 import agree
from .c10 import snap, unchanged

CHECK = Check(
    "C11",
    "random models and histories of derivative evaluations of one model object "
    "(forward or reverse mode, default mode, batch limits, parameters changed in "
    "between); the oracle is a Richardson-extrapolated finite difference along "
    "random directions of the model's own output; non-trivial: more than one "
    "sample, and several outputs, leaves or parameter arrays",
)
OP = st.fixed_dictionaries(dict(
    what=st.sampled_from(["input", "params"]), fwd=st.sampled_from([None, True, False]),
    k=st.sampled_from([None, 1, 2, 3]), avoid=st.booleans(), move=st.sampled_from([False, False, True])))
REAL = {"linear", "matmul", "einsum", "tensor", "bias", "tanh", "sigmoid", "softplus", "prelu", "scale", "counter", "shift"}


def leaves(x):
    return [v for _, v in gen.flat(x)]


def fdiff(f, h=2e-4):
    """Derivative at 0 of f: step -> list of arrays, and an error estimate."""
    def d(h):
        return [(a - b) / (2 * h) for a, b in zip(f(h), f(-h))]

    d1, d2, d3 = d(h), d(h / 2), d(h / 4)
    r1 = [(4 * b - a) / 3 for a, b in zip(d1, d2)]
    r2 = [(4 * b - a) / 3 for a, b in zip(d2, d3)]
    err = max(float(np.abs(a - b).max(initial=0)) for a, b in zip(r1, r2))
    return r2, err


def direction(r, p):
    """A direction in which parameter array p can move: complex square
    matrices are Hermitian parameters, which set_params insists on."""
    d = r.standard_normal(p.shape)
    if np.iscomplexobj(p):
        d = d + 1j * r.standard_normal(p.shape)
        if p.ndim >= 2 and p.shape[-1] == p.shape[-2]:
            d = (d + np.conj(np.swapaxes(d, -1, -2))) / 2
    return d


def run(m, x, ops, seed, ctx, out_struct):
    n = leaves(x)[0].shape[0]
    r = np.random.default_rng(seed)
    jx = to_jax(x)
    params = m.get_params()
    plv, ptd = jax.tree.flatten(params)
    cplx = any(np.iscomplexobj(p) for p in plv)
    xl = leaves(x)

    def f_x(h, v, bk):
        it = iter(v)
        return leaves(np_tree(m(to_jax(gen.tmap(lambda a: a + h * next(it), _ord(x))), **bk)))

    before = snap(m)
    for op in ops:
        if op["move"]:
            # new parameters: derivatives must follow
            plv = [p + 0.05 * direction(r, p) for p in plv]
            m.set_params(jax.tree.unflatten(ptd, plv))
            before = snap(m)
        fwd = op["fwd"]
        if op["what"] == "params" and cplx and fwd:
            fwd = False
        kw = dict(fwd=fwd, max_batch_size=op["k"], avoid_recompilation=op["avoid"])
        label = f"grad_{op['what']}({kw})"
        # state is passed from batch to batch, so the reference uses the same batches
        bk = dict(max_batch_size=op["k"], avoid_recompilation=op["avoid"])
        base = leaves(np_tree(m(jx, **bk)))
        if op["what"] == "input":
            jac = np_tree(m.grad_input(jx, **kw))
            v = [r.standard_normal(a.shape) for a in xl]
            fd, err = fdiff(lambda h: f_x(h, v, bk))
            # structure: output above input
            parts = []
            for p, _ in gen.flat(out_struct):
                q = jac
                for k in p:
                    q = q[k]
                expect(gen.same_struct(q, x), f"{label}: structure below output {p}")
                parts.append(leaves(q))
            want_shape = [[(n, *b.shape[1:], *a.shape[1:]) for a in xl] for b in base]
            for ws, js in zip(want_shape, parts):
                for w, j in zip(ws, js):
                    expect(np.asarray(j).shape == w, f"{label}: shape {np.asarray(j).shape}, expected {w}")
            got = []
            for b, js in zip(base, parts):
                tot = np.zeros(b.shape)
                for j, d in zip(js, v):
                    jj = np.asarray(j).reshape(n, -1, max(1, int(np.prod(d.shape[1:]))))
                    tot = tot + np.einsum("noi,ni->no", jj, d.reshape(n, -1)).reshape(b.shape)
                got.append(tot)
        else:
            if not plv:
                continue
            jac = m.grad_params(jx, **kw)
            v = [direction(r, p) for p in plv]

            def f_p(h):
                m.set_params(jax.tree.unflatten(ptd, [p + h * d for p, d in zip(plv, v)]))
                return leaves(np_tree(m(jx, **bk)))

            try:
                fd, err = fdiff(f_p)
            finally:
                m.set_params(jax.tree.unflatten(ptd, plv))
            parts = []
            for p, _ in gen.flat(out_struct):
                q = jac
                for k in p:
                    q = q[k]
                expect(jax.tree.structure(q) == ptd, f"{label}: structure below output {p} is not that of the parameters")
                parts.append([np.asarray(j) for j in jax.tree.leaves(q)])
            got = []
            for b, js in zip(base, parts):
                tot = np.zeros(b.shape)
                for j, d in zip(js, v):
                    expect(j.shape == (n, *b.shape[1:], *d.shape), f"{label}: shape {j.shape}, expected {(n, *b.shape[1:], *d.shape)}")
                    jj = j.reshape(n, max(1, int(np.prod(b.shape[1:]))), max(1, d.size))
                    tot = tot + np.real(np.einsum("noi,i->no", jj, d.ravel())).reshape(b.shape)
                got.append(tot)
        sc = 1 + max(float(np.abs(a).max(initial=0)) for a in fd)
        if not np.isfinite(sc) or err > 1e-6 * sc:
            ctx.label("ill-conditioned")
            continue
        for a, b, (p, _) in zip(got, fd, gen.flat(out_struct)):
            close(a, b, 1e-4, 1e-4 * sc, f"{label}: directional derivative of output {p}")
        unchanged(m, before)
        ctx.mark(n > 1 and (len(base) > 1 or base[0][0].size > 1 or len(plv) > 1))
        ctx.label(op["what"], f"fwd={fwd}", f"k={op['k']}")


def _ord(x):
    """dictionaries in sorted order, so that iteration is flattening order."""
    if isinstance(x, dict):
        return {k: _ord(x[k]) for k in sorted(x)}
    if isinstance(x, (list, tuple)):
        return type(x)(_ord(v) for v in x)
    return x


def smooth(net):
    return not any(d["m"] in ("lowrank",) or (d["m"] == "eigvals" and d["which"] in ("EA", "IA")) for d in net["mods"])


@CHECK.sub("sequential", st.fixed_dictionaries(dict(
    net=models.pipelines(hi=3, extra=("scale", "counter")).filter(smooth), box=models.boxes(), n=st.integers(1, 4),
    ops=st.lists(OP, min_size=1, max_size=2), seed=seeds)), 150)
def sequential(c, ctx):
    m, _ = models.model(c["net"], c["box"], c["seed"] % 9973)
    x = models.data(c["net"]["in"], c["seed"], c["n"])
    run(m, x, c["ops"], c["seed"], ctx, models.spec_shape_leaf(c["net"]["out"]))


@CHECK.sub("light", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(s=st.lists(st.sampled_from([1, 2, 3]), max_size=2)), max_leaves=3, allow_leaf=False),
    n=st.integers(1, 7), ops=st.lists(OP, min_size=2, max_size=4), seed=seeds)), 100)
def light(c, ctx):
    m = pmm.SequentialModel({"a": U.Scale(0.7, 0.1), "b": [U.Scale(1.1, -0.2), U.Counter(0.5)]})
    m.compile(0, models.spec_shape(c["t"]))
    models.widen(m)
    x = models.data(c["t"], c["seed"], c["n"])
    run(m, x, c["ops"], c["seed"], ctx, models.spec_shape_leaf(c["t"]))


@CHECK.sub("graph", st.fixed_dictionaries(dict(
    g=graphs.graphs(max_nodes=3), n=st.integers(1, 4), ops=st.lists(OP, min_size=1, max_size=2), seed=seeds)), 80)
def graph(c, ctx):
    g = c["g"]
    m, mods = graphs.build(g)
    m.compile(c["seed"] % 97, graphs.in_shape(g))
    models.widen(m)
    x = graphs.data(g, c["seed"], c["n"])
    run(m, x, c["ops"], c["seed"], ctx, gen.tmap(lambda v: 0, graphs.interpret(g, mods, x)))


@CHECK.sub("state", st.fixed_dictionaries(dict(
    n=st.integers(1, 6), k=st.sampled_from([None, 1, 2, 4]), avoid=st.booleans(), fwd=st.sampled_from([None, True, False]),
    what=st.sampled_from(["input", "params"]), seed=seeds)), 60)
def state(c, ctx):
    """Stateful models: the returned state has the form of the state, and is
    kept only when asked to."""
    m = pmm.SequentialModel([U.Scale(1.0, 0.5), U.Counter(0.25)])
    m.compile(0, (2,))
    models.widen(m)
    x = to_jax(gen.arr(c["seed"], (c["n"], 2)))
    f = m.grad_input if c["what"] == "input" else m.grad_params
    kw = dict(max_batch_size=c["k"], avoid_recompilation=c["avoid"], fwd=c["fwd"])
    before = snap(m)
    _, s = f(x, return_state=True, **kw)
    unchanged(m, before)
    form = lambda t: [(np.asarray(v).shape, str(np.asarray(v).dtype)) for v in jax.tree.leaves(t)]  # noqa: E731
    expect(jax.tree.structure(s) == jax.tree.structure(m.get_state()) and form(s) == form(m.get_state()),
           f"returned state {form(s)} does not have the form of the model's state {form(m.get_state())}")
    f(x, update_state=True, **kw)
    expect(form(m.get_state()) == form(s), "form of the updated state")
    expect(int(np.asarray(jax.tree.leaves(m.get_state())[0])[0]) >= 1, "update_state had no effect")
    m(x)
    ctx.mark(c["k"] is not None)


@CHECK.sub("mode", st.fixed_dictionaries(dict(
    n=st.integers(1, 5), d=st.sampled_from([2, 1, 3]), k=st.sampled_from([None, 1, 2, 4]), avoid=st.booleans(), fwd=st.sampled_from([None, True, False]),
    rngs=st.lists(st.sampled_from([None, 1, 2, 77]), min_size=1, max_size=3), what=st.sampled_from(["input", "params"]),
    kind=st.sampled_from(["seq", "graph", "nested"]), seed=seeds)), 60)
def mode(c, ctx):
    """Modules that use their key or behave differently in training: the
    derivatives are those of the prediction with the same key."""
    a, b = U.RandGain(0.8), U.RandGain(1.3)
    m = dict(seq=lambda: pmm.SequentialModel([a, b]), nested=lambda: pmm.SequentialModel([pmm.SequentialModel([a]), b]),
             graph=lambda: pmm.NonSequentialModel({"a": a, "b": b}, {"input": "a", "a": "b", "b": "output"}))[c["kind"]]()
    m.compile(c["seed"] % 997, (c["d"],))
    models.widen(m)
    n, d = c["n"], c["d"]
    x = np.random.default_rng(c["seed"]).uniform(0.5, 1.5, (n, d))
    jx = to_jax(x)
    for r in c["rngs"]:
        kw = dict(max_batch_size=c["k"], avoid_recompilation=c["avoid"])
        if r is not None:
            kw["rng"] = r if r != 77 else jax.random.key(r)
        y = np.asarray(m(jx, **kw))
        if c["what"] == "input":
            got = np.asarray(m.grad_input(jx, fwd=c["fwd"], **kw))
            want = np.einsum("ni,ij->nij", y / x, np.eye(d))
            close(got, want, 1e-9, 1e-9, f"grad_input with rng={r}")
        else:
            for g, p in zip(jax.tree.leaves(m.grad_params(jx, fwd=c["fwd"], **kw)), jax.tree.leaves(m.get_params())):
                close(np.asarray(g), y[..., None] / np.asarray(p), 1e-9, 1e-9, f"grad_params with rng={r}")
    ctx.mark(len(set(c["rngs"])) > 1)
    ctx.label(c["what"], c["kind"])
