"""C14 training follows the gradient of the loss it was asked to minimize."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models
from pbt import usermods as U
from pbt.core import Check, Discard, close, expect
from pbt.gen import seeds
from pbt.sut import np_tree, pmm, to_jax

from .c11 import direction, fdiff
from .c13 import quiet

CHECK = Check(
    "C14",
    "every named loss over random PyTrees of real and complex predictions, "
    "targets and uncertainties: the gradient recovered from training steps "
    "with a dominating Adam epsilon, and the loss value located by the target "
    "loss, against the written-out formulas; random models of the package "
    "against finite differences of their own predictions; non-trivial: more "
    "than one leaf of different size, or uncertainties, or a model with at least two modules",
)

LOSSES = ["mse", "mae", "pseudo_huber", "pseudo_huber:0.5", "pseudo_huber:3", "mse_unc", "mae_unc", "mre", "mre_unc", "mrd", "mrd_unc",
          "mse_unsupervised", "mae_unsupervised", "mre_unsupervised"]


def formula(name, xp, X, P, Y, S):
    """The loss, over flat lists of leaves: the mean over all numbers of all
    leaves of the error of each."""
    if name.endswith("_unsupervised"):
        name, Y = name[: -len("_unsupervised")], X
    tot, num = 0.0, 0
    for i, (p, y) in enumerate(zip(P, Y)):
        s = S[i] if S is not None else None
        d = p - y
        sq = lambda z: xp.real(z * xp.conj(z))
        if name == "mse":
            e = sq(d)
        elif name == "mae":
            e = xp.sqrt(sq(d))
        elif name.startswith("pseudo_huber"):
            dl = float(name.split(":")[1]) if ":" in name else 1.0
            e = dl ** 2 * (xp.sqrt(1 + sq(d / dl)) - 1)
        elif name == "mse_unc":
            e = sq(d / s)
        elif name == "mae_unc":
            e = xp.sqrt(sq(d / s))
        elif name == "mre":
            e = xp.sqrt(sq(d / (y + 1e-4)))
        elif name == "mre_unc":
            e = xp.sqrt(sq(d / ((y + 1e-4) * s)))
        elif name == "mrd":
            e = xp.sqrt(sq(d / ((y + p) * 2.0 + 1e-4)))
        elif name == "mrd_unc":
            e = xp.sqrt(sq(d / (((y + p) * 2.0 + 1e-4) * s)))
        else:
            raise KeyError(name)
        tot = tot + xp.sum(e)
        num += e.size
    return tot / num


class Map(U._User):
    """Leaf k -> a leaf + c leaf^2 (times a phase for complex outputs)."""

    def __init__(self, phase=0.0):
        self.phase = phase
        self.w = None

    def is_ready(self):
        return self.w is not None

    def compile(self, rng, input_shape):
        if self.w is None:
            self.w = [jnp.asarray([1.2]), jnp.asarray([0.15])]

    def _get_callable(self):
        ph = self.phase

        def f(p, data, training, state, rng):
            g = lambda x: (p[0] * x + p[1] * x * x)
            return jax.tree.map(lambda x: g(x) * (np.exp(1j * ph)) if ph else g(x), data), state

        return f

    def get_hyperparameters(self):
        return {"phase": self.phase}

    def get_params(self):
        return () if self.w is None else self.w

    def set_params(self, p):
        self.w = p


@CHECK.sub("named", st.fixed_dictionaries(dict(
    loss=st.sampled_from(LOSSES), phase=st.sampled_from([0.0, 0.0, 0.7]), n=st.integers(1, 6), batch=st.sampled_from([100]),
    tree=gen.trees(st.builds(lambda s: {"t": "leaf", "s": s}, st.lists(st.integers(1, 3), min_size=1, max_size=2)), max_leaves=4),
    mode=st.sampled_from(["grad", "grad", "below", "above"]), fwd=st.booleans(), val=st.booleans(), seed=seeds)), 150)
def named(c, ctx):
    name, n, ph = c["loss"], c["n"], c["phase"]
    uns = name.endswith("_unsupervised")
    unc = name.endswith("_unc")
    r = np.random.default_rng(c["seed"])
    draw = lambda lo, hi: gen.build(c["tree"], lambda s, *_: r.uniform(lo, hi, (n, *s["s"])))
    X = draw(0.4, 1.6)
    # keep predictions and targets apart: |.| is smooth there
    Y = gen.tmap(lambda v: np.where(r.random(v.shape) < 0.5, 1.2 * v + 0.15 * v * v + r.uniform(0.3, 1.5, v.shape),
                                    (1.2 * v + 0.15 * v * v) * r.uniform(0.2, 0.7, v.shape)), X)
    if ph:
        Y = gen.tmap(lambda v: v * np.exp(1j * (ph + 0.3)), Y)
    S = draw(0.3, 2.0)
    if uns and ph:
        raise Discard
    xs, ys, ss = ([v for _, v in gen.flat(t)] for t in (X, Y, S))

    def value(w, xp):
        P = [(w[0] * x + w[1] * x * x) * (np.exp(1j * ph) if ph else 1.0) for x in xs]
        return formula(name, xp, xs, P, ys, ss if unc else None)

    w0 = np.array([1.2, 0.15])
    want = float(value(w0, np))
    model = pmm.SequentialModel([Map(ph)])
    jX, jY, jS = to_jax(X), to_jax(Y), to_jax(S)
    model.compile(0, jax.tree.map(lambda v: v.shape[1:], jX))
    args = [] if uns else [jY]
    kw = {"Y_unc": jS} if unc else {}
    if c["val"]:
        kw["X_val"] = jX
        if not uns:
            kw["Y_val"] = jY
        if unc:
            kw["Y_val_unc"] = jS
    ran = []

    def callback(rng, epoch, params):
        jax.debug.callback(lambda e: ran.append(int(e)), epoch)
        return rng, params

    if c["mode"] == "grad":
        eps, lr = 1e4, 1e-2
        with quiet():
            model.train(jX, *args, loss_fn=name, val_loss_fn=lambda e, *a: -jnp.asarray(e, float), epochs=2, lr=lr * eps, eps=eps, b1=0.0, b2=0.0,
                        clip=1e9, batch_size=100, verbose=False, batch_rng=0, fwd=c["fwd"], **kw)
        g = jax.grad(lambda w: value(w, jnp))
        w = w0.copy()
        for _ in range(2):
            d = np.asarray(g(jnp.asarray(w)))
            w = w - float(np.float32(lr * eps)) * d / (np.abs(d) + eps)
        got = np.array([float(v[0]) for v in model.get_params()[0]])
        scale = np.abs(w - w0).max() + 1e-12
        expect(np.all(np.abs(got - w) <= 1e-4 * scale),
               lambda: f"{name}: two gradient steps moved the parameters by {(got - w0).tolist()}, the formula gives {(w - w0).tolist()}")
    else:
        target = want * (0.99 if c["mode"] == "below" else 1.01)
        with quiet():
            model.train(jX, *args, loss_fn=name, epochs=2, lr=1e-9, target_loss=float(target), batch_size=100, verbose=False, batch_rng=0,
                        callback=callback, **kw)
        jax.effects_barrier()
        expect(len(ran) == (2 if c["mode"] == "below" else 0),
               lambda: f"{name}: loss {want:.6g}, target {target:.6g}, but {len(ran)} epochs were run")
    sizes = {v.size for v in xs}
    ctx.mark(len(sizes) > 1 or unc)
    ctx.label(name, c["mode"], "complex" if ph else "real")


# ------------------------------------------------------- models of the package
@CHECK.sub("models", st.fixed_dictionaries(dict(
    net=models.pipelines(hi=3, extra=("scale",)), box=models.boxes(), n=st.integers(1, 5), fwd=st.booleans(), frozen=st.integers(0, 5),
    loss=st.sampled_from(["mse", "custom"]), seed=seeds)), 90)
def packaged(c, ctx):
    """Recover the gradient from two training steps and compare with finite
    differences of the model's own predictions; frozen modules stay."""
    m, mods = models.model(c["net"], c["box"], c["seed"] % 9973)
    leaves = jax.tree.leaves(m.modules)
    r = np.random.default_rng(c["seed"])
    for k, q in enumerate(leaves):
        if c["frozen"] and r.random() < 0.3:
            q.freeze()
    tf = jax.tree.leaves(flags(m))
    ps = jax.tree.leaves(m.get_params())
    if not any(tf):
        raise Discard
    cplx = any(np.iscomplexobj(p) for p in ps)
    x = models.data(c["net"]["in"], c["seed"], c["n"])
    X = to_jax(x)
    pred = np_tree(m(X))
    pl = [v for _, v in gen.flat(pred)]
    if any(np.iscomplexobj(v) for v in pl) or not all(np.all(np.isfinite(v)) for v in pl):
        raise Discard
    Y = jax.tree.map(lambda v: jnp.asarray(np.asarray(v) + np.random.default_rng(c["seed"] + 1).standard_normal(np.shape(v))), m(X))
    yl = [np.asarray(v) for v in jax.tree.leaves(Y)]
    struct = jax.tree.structure(m.get_params())

    def loss_at(vals):
        m.set_params(jax.tree.unflatten(struct, [jnp.asarray(v) for v in vals]))
        out = [np.asarray(v) for v in jax.tree.leaves(m(X))]
        num = sum(v.size for v in out)
        return sum(((a - b) ** 2).sum() for a, b in zip(out, yl)) / num

    p0 = [np.asarray(p) for p in ps]
    s0 = m.get_state()
    dirs = [direction(r, p) for p in p0]
    eps, lr = 1e6, 1e-7
    kw = dict(loss_fn="mse") if c["loss"] == "mse" else dict(
        loss_fn=lambda e, X_, Y_, P: sum(jnp.sum((a - b) ** 2) for a, b in zip(jax.tree.leaves(P), jax.tree.leaves(Y_))) / sum(a.size for a in jax.tree.leaves(P)))
    with quiet():
        m.train(X, Y, val_loss_fn=lambda e, *a: -jnp.asarray(e, float), epochs=2, lr=lr * eps, eps=eps, b1=0.0, b2=0.0, clip=1e12,
                batch_size=100, verbose=False, batch_rng=0, fwd=c["fwd"] and not cplx, **kw)
    p1 = [np.asarray(p) for p in jax.tree.leaves(m.get_params())]
    num = 0.0
    for k, (a, b, t) in enumerate(zip(p0, p1, tf)):
        if not t:
            expect(np.array_equal(a, b), f"frozen parameters {k} changed")
        else:
            num += float(np.real(np.conj(dirs[k]) * (a - b)).sum() / (2 * lr))
    # directional derivative along the unfrozen directions
    (want,), err = fdiff(lambda h: [np.asarray(loss_at([p + (h * d if t else 0 * p) for p, d, t in zip(p0, dirs, tf)]))])
    want = float(want)
    scale = max(abs(want), np.sqrt(sum((np.abs(a - b) ** 2).sum() for a, b in zip(p0, p1))) / (2 * lr), 1e-3)
    if not np.isfinite(want) or err > 1e-3 * scale:
        raise Discard      # kink or near-degenerate eigenvalues
    close(np.asarray(num), np.asarray(want), 0, 2e-2 * scale, "directional derivative recovered from training")
    # the first two steps of the default optimizer: lr in the direction of descent
    m.set_params(jax.tree.unflatten(struct, [jnp.asarray(v) for v in p0]))
    m.set_state(s0)
    lr2 = 1e-6
    with quiet():
        m.train(X, Y, val_loss_fn=lambda e, *a: -jnp.asarray(e, float), epochs=2, lr=lr2, clip=1e12, batch_size=100, verbose=False, batch_rng=0, **kw)
    p2 = [np.asarray(p) for p in jax.tree.leaves(m.get_params())]
    for k, (a, b, d, t) in enumerate(zip(p0, p1, p2, tf)):
        if t:
            g = (a - b) / (2 * lr)
            ok = np.abs(g) > 1e-3 * scale
            got = (a - d) / (2 * lr2)
            expect(np.all(np.abs(got - g / np.maximum(np.abs(g), 1e-300))[ok] <= 2e-2),
                   lambda: f"parameters {k}: Adam step / lr {got[ok].ravel()[:4]}, gradient {g[ok].ravel()[:4]}")
    ctx.mark(len(leaves) > 1)
    ctx.label("complex" if cplx else "real", c["loss"])


def flags(m):
    def one(q):
        if isinstance(q, pmm.Model):
            return jax.tree.map(one, q.modules)
        return jax.tree.map(lambda _: bool(q.trainable), q.get_params())
    return jax.tree.map(one, m.modules)
