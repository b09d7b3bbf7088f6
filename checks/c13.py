"""C13 training: what is trained, on which data, for how long, and what is kept."""
import contextlib
import io
import os
import signal

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import models
from pbt import usermods as U
from pbt.core import Check, Discard, close, expect, fail, same
from pbt.gen import seeds
from pbt.sut import pmm, to_jax

CHECK = Check(
    "C13",
    "random small models with frozen and unfrozen, real and complex "
    "parameters, random training options and histories of training calls, "
    "compared with an independent simulation of the documented training loop; "
    "recording of every batch of samples seen; interruption of training by "
    "signals; non-trivial: more than one batch per epoch or more than one "
    "training call, and a best epoch that is not the last one run",
)

F32 = np.float32


# ------------------------------------------------------------------ reference
class Ref:
    """Chain of y -> p0 y + p1 y^2 on fixed features; every sample the same."""

    def __init__(self, mods, x, y):
        self.x, self.y = x, y
        # one entry per parameter array: real pairs are two arrays
        self.mods = [dict(kind=m["kind"], frozen=False) for m in mods]
        for r, m in zip(self.mods, mods):
            a, c = m["a"], m["c"]
            r["p"] = [complex(a, c)] if m["kind"] == "c" else [a, c]
            r["m"] = r["v"] = r["i"] = None

    def coef(self, r):
        return (r["p"][0].real, r["p"][0].imag) if r["kind"] == "c" else tuple(r["p"])

    def grads(self, w):
        """d(loss)/d(coefficients) per module for loss = w mean((out - y)^2)."""
        ins, h = [], self.x
        for r in self.mods:
            ins.append(h)
            a, c = self.coef(r)
            h = a * h + c * h * h
        g = w * 2 * (h - self.y) / h.size
        out = []
        for r, z in zip(reversed(self.mods), reversed(ins)):
            a, c = self.coef(r)
            out.append(((g * z).sum(), (g * z * z).sum()))
            g = g * (a + 2 * c * z)
        return out[::-1]

    def start(self):
        for r in self.mods:
            r["m"], r["v"] = [0.0] * len(r["p"]), [0.0] * len(r["p"])
            r["i"] = 0

    def step(self, o, w):
        for r, (ga, gc) in zip(self.mods, self.grads(w)):
            if r["frozen"]:
                continue
            ga, gc = (float(np.clip(g, -o["clip"], o["clip"])) for g in (ga, gc))
            ds = [complex(ga, gc)] if r["kind"] == "c" else [ga, gc]
            i = r["i"]
            b1, b2 = o["b1"], o["b2"]
            lr = float(F32(o["lr"] / (1 + i) if o["decay"] else o["lr"]))
            for k, d in enumerate(ds):
                r["m"][k] = b1 * r["m"][k] + (1 - b1) * d
                r["v"][k] = b2 * r["v"][k] + (1 - b2) * abs(d) ** 2
                mh = r["m"][k] / float(F32(1 - b1 ** (i + 1)))
                vh = r["v"][k] / float(F32(1 - b2 ** (i + 1)))
                r["p"][k] = r["p"][k] - lr * mh / (np.sqrt(vh) + o["eps"])

    def snap(self):
        return [{k: (list(v) if isinstance(v, list) else v) for k, v in r.items()} for r in self.mods]

    def load(self, s):
        for r, q in zip(self.mods, s):
            fr = r["frozen"]
            r.update({k: (list(v) if isinstance(v, list) else v) for k, v in q.items()})
            r["frozen"] = fr


def simulate(ref, o, nb, table, seen):
    """One call of train; returns (epochs run, best epoch). Batches seen so far
    decide the validation loss: table[batches // nb]."""
    val = lambda n: table[(n // nb) % len(table)]
    n = seen
    best, best_at = val(n), -1
    keep, keep_n = ref.snap(), n
    patience, epoch = o["patience"], 0
    while epoch < o["epochs"] and best > o["target"] and patience > 0:
        for _ in range(nb):
            ref.step(o, 1.0 + o["ramp"] * epoch)
            n += 1
        for r in ref.mods:
            r["i"] += 0 if r["frozen"] else 1
        v = val(n)
        patience = o["patience"] if v <= best - o["min_delta"] else patience - 1
        if v < best:
            best, best_at = v, epoch
            keep, keep_n = ref.snap(), n
        if o["shrink"] != 1.0:
            for r in ref.mods:
                r["p"] = [q * o["shrink"] for q in r["p"]]
        epoch += 1
    ref.load(keep)
    return epoch, best_at, keep_n


# ------------------------------------------------------------------- the SUT
def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def opt_leaves(m):
    """The stored optimizer states; None if they are kept in another form (they
    are also judged by what resumed training does)."""
    ss = jax.tree.leaves(getattr(m, "_optimizer_state", None), is_leaf=lambda s: hasattr(s, "epoch"))
    ok = hasattr(m, "_optimizer_state") and all(hasattr(s, a) for s in ss for a in ("epoch", "m", "v"))
    return ss if ok else None


MOD = st.fixed_dictionaries(dict(
    kind=st.sampled_from(["r", "r", "c"]), a=st.sampled_from([0.6, 0.9, 1.1, 1.4, -0.8]),
    c=st.sampled_from([0.0, 0.05, -0.1, 0.2]), sub=st.booleans()))
OPT = st.fixed_dictionaries(dict(
    lr=st.sampled_from([1e-3, 0.01, 0.05, 0.2]), decay=st.booleans(), b1=st.sampled_from([0.9, 0.5, 0.8]),
    b2=st.sampled_from([0.999, 0.9, 0.99]), eps=st.sampled_from([1e-8, 1e-3]), clip=st.sampled_from([1e3, 0.5, 0.01]),
    ramp=st.sampled_from([0.0, 0.5, 2.0]), shrink=st.sampled_from([1.0, 1.0, 0.97]),
    batch=st.sampled_from([2, 1, 3, 5, 32]), epochs=st.sampled_from([5, 6, 4, 7, 8, 3, 2, 1]),
    patience=st.sampled_from([100, 100, 3, 2, 1]), min_delta=st.sampled_from([float("-inf"), float("-inf"), 0.25, 1.25, 1.0, -1.75, 0.0]),
    target=st.sampled_from([float("-inf")] * 4 + [0.5, 2.5]),
    resume=st.booleans(), freeze=st.lists(st.integers(0, 3), max_size=2), unfreeze=st.booleans(),
    fwd=st.sampled_from([False, False, True]), unroll=st.sampled_from([None, None, 2]), poke=st.sampled_from([False, False, True])))


def jsonable_inf(o):
    """Infinities travel as strings in the case files."""
    return {k: (float(v) if isinstance(v, str) else v) for k, v in o.items()}


OPT = OPT.map(lambda o: {k: (repr(v) if isinstance(v, float) and np.isinf(v) else v) for k, v in o.items()})


@st.composite
def LOOP(draw):
    mods = draw(st.lists(MOD, min_size=1, max_size=3))
    calls = draw(st.lists(OPT, min_size=1, max_size=2))
    tot = 1 + sum(c["epochs"] for c in calls)
    how = draw(st.sampled_from(["valley", "shuffled", "valley", "down", "up", "stairs"]))
    if how == "stairs":
        # improvements after stalls shorter than the patience: never stops
        o = calls[0]
        o.update(patience=draw(st.sampled_from([2, 3])), min_delta=draw(st.sampled_from([0.0, 0.25, 1.0])), epochs=9, target="-inf")
        calls = [o]
        tot = 10
    return dict(mods=mods, calls=calls, how=how, n=draw(st.sampled_from([5, 4, 7, 3, 6, 2, 1])), tot=tot, nan=draw(st.lists(st.integers(1, tot), max_size=2)),
                seed=draw(seeds), d=draw(st.integers(1, 3)))


def val_table(c):
    t = c["tot"] + 1
    v = np.arange(t, dtype=float)
    r = np.random.default_rng(c["seed"])
    if c["how"] == "shuffled":
        v = r.permutation(t).astype(float)
    elif c["how"] == "down":
        v = v[::-1].copy()
    elif c["how"] == "valley":
        k = int(r.integers(1, min(t, 6)))
        v = np.abs(np.arange(t) - k) + 0.5 * (np.arange(t) > k)
    elif c["how"] == "stairs":
        q = c["calls"][0]["patience"]
        v = np.where(np.arange(t) % q == 0, 40.0 - np.arange(t), 50.0)
        return v
    for k in c["nan"]:
        if k < t:
            v[k] = np.nan
    return v


@CHECK.sub("loop", LOOP(), 190)
def loop(c, ctx):
    r = np.random.default_rng(c["seed"])
    x = r.uniform(0.3, 1.3, c["d"])
    y = r.uniform(-1, 2, c["d"])
    X = jnp.asarray(np.tile(x, (c["n"], 1)))
    Y = jnp.asarray(np.tile(y, (c["n"], 1)))
    mods = [U.CScale(q["a"], q["c"]) if q["kind"] == "c" else U.Scale(q["a"], q["c"]) for q in c["mods"]]
    subs = [i for i, q in enumerate(c["mods"]) if q["sub"]]
    box = []
    for i, m in enumerate(mods):
        if i in subs and i - 1 in subs and isinstance(box[-1], list):
            box[-1].append(m)
        else:
            box.append([m] if i in subs else m)
    probe = U.Probe()
    model = pmm.SequentialModel([pmm.SequentialModel(b) if isinstance(b, list) else b for b in box] + [probe])
    model.compile(0, (c["d"],))
    ref = Ref(c["mods"], x, y)
    table = val_table(c)
    jt = jnp.asarray(table)
    seen = 0
    marks = []
    prev = None
    for k, o in enumerate(jsonable_inf(q) for q in c["calls"]):
        if not np.isfinite(o["min_delta"]) and c["nan"]:
            o["patience"] = 100
        cplx = any(q["kind"] == "c" for q in c["mods"])
        if o["unfreeze"]:
            for m, q in zip(mods, ref.mods):
                m.unfreeze()
                q["frozen"] = False
        for i in o["freeze"]:
            if i < len(mods):
                mods[i].freeze()
                ref.mods[i]["frozen"] = True
        if all(q["frozen"] for q in ref.mods):
            mods[0].unfreeze()
            ref.mods[0]["frozen"] = False
        if o["poke"]:
            # parameters set by the user between two training calls count
            q = ref.mods[0]
            q["p"] = [v * 0.5 for v in q["p"]]
            mods[0].set_params(jnp.asarray(q["p"]) if q["kind"] == "c" else tuple(jnp.asarray([v]) for v in q["p"]))
        batch = min(o["batch"], c["n"])
        nb = -(-c["n"] // batch)
        # the validation loss depends on the batches seen by the module state,
        # counted from the start of this call
        base = seen
        ran = []

        def loss(epoch, X_, Y_, P):
            return (1.0 + o["ramp"] * epoch) * jnp.mean((P["y"] - Y_) ** 2)

        def vloss(epoch, X_, Y_, P):
            n = jnp.round(P["n"][0, 0]).astype(int) - base
            return jt[(n // nb) % len(table)]

        def callback(rng, epoch, params):
            jax.debug.callback(lambda e: ran.append(int(e)), epoch)
            return rng, (params if o["shrink"] == 1.0 else jax.tree.map(lambda p: p * o["shrink"], params))

        resume = o["resume"] and k > 0
        before = [[np.asarray(v) for v in jax.tree.leaves(m.get_params())] for m in mods]
        with quiet():
            model.train(
                X, Y, loss_fn=loss, val_loss_fn=vloss, lr=(lambda i: o["lr"] / (1 + i)) if o["decay"] else o["lr"],
                batch_size=o["batch"], epochs=o["epochs"], target_loss=o["target"], early_stopping_patience=o["patience"],
                early_stopping_min_delta=o["min_delta"], callback=callback, unroll=o["unroll"], verbose=False,
                batch_rng=c["seed"] % 1000 + k, b1=o["b1"], b2=o["b2"], eps=o["eps"], clip=o["clip"], resume=resume,
                fwd=o["fwd"] and not cplx)
        jax.effects_barrier()
        if not resume:
            ref.start()
        epochs, best, n = simulate(ref, o, nb, table, 0)
        seen = base + n
        what = f"call {k}"
        expect(len(ran) == epochs and sorted(ran) == list(range(epochs)),
               lambda: f"{what}: ran epochs {sorted(ran)}, {epochs} epochs expected (validation losses {table.tolist()}, options {o})")
        expect(int(probe.get_state()[0]) == seen, lambda: f"{what}: state counts {int(probe.get_state()[0])} training batches at the best epoch, {seen} expected")
        for i, (m, q) in enumerate(zip(mods, ref.mods)):
            now = [np.asarray(v) for v in jax.tree.leaves(m.get_params())]
            if q["frozen"]:
                expect(o["shrink"] != 1.0 or all(same(a, b) for a, b in zip(now, before[i])), f"{what}: frozen module {i} changed")
            for a, b in zip(now, q["p"]):
                close(a, np.asarray([b]), 2e-5, 2e-5, f"{what}: parameters of module {i} after training")
        if best >= 0:
            # the stored optimizer state is that of the best epoch
            ss = opt_leaves(model)
            flat = [(q, j) for q in ref.mods for j in range(len(q["p"]))]
            ss = () if ss is None else ss
            expect(ss == () or len(ss) == len(flat), f"{what}: {len(ss)} optimizer states for {len(flat)} parameter arrays")
            for s, (q, j) in zip(ss, flat):
                expect(int(s.epoch) == q["i"], lambda: f"{what}: optimizer state counts {int(s.epoch)} epochs, {q['i']} expected")
                close(np.asarray(s.m), np.asarray([q["m"][j]]), 2e-5, 2e-5, f"{what}: first moment")
                close(np.asarray(s.v), np.asarray([q["v"][j]]), 2e-5, 2e-5, f"{what}: second moment")
        marks.append(epochs > 1 and best < epochs - 1)
        ctx.label(f"batches={'many' if nb > 1 else 'one'}", f"stop={'all' if epochs == o['epochs'] else 'early'}",
                  *(["resume"] if resume else []), *(["frozen"] if any(q["frozen"] for q in ref.mods) else []), *(["complex"] if cplx else []))
        ctx.mark(any(marks) and (nb > 1 or k > 0))


# -------------------------------------------------- which samples, how often
def tree_ids(shape, n, off=0.0):
    """Sample number on every leaf of a PyTree."""
    one = lambda k: jnp.asarray(np.tile(np.arange(n, dtype=float)[:, None] + off, (1, k)))
    if shape == "bare":
        return one(1)
    if shape == "list":
        return [one(2), one(1)]
    return {"a": one(1), "b": (one(3), one(1))}


def ids_of(t):
    ls = [np.asarray(v) for v in jax.tree.leaves(t)]
    for v in ls:
        if not (np.all(v == v[:, :1]) and np.all(v[:, 0] == ls[0][:, 0])):
            fail(f"leaves or features of one sample were separated: {[w.tolist() for w in ls]}")
    return ls[0][:, 0].astype(int).tolist()


@CHECK.sub("samples", st.fixed_dictionaries(dict(
    shape=st.sampled_from(["bare", "list", "dict"]), n=st.integers(2, 17), nv=st.integers(1, 9), batch=st.sampled_from([1, 2, 3, 4, 5, 8, 32]),
    vb=st.sampled_from([0, 1, 2, 3, 4, 20]), epochs=st.integers(1, 4), unc=st.booleans(), val=st.booleans(), sup=st.sampled_from([True, True, False]),
    unroll=st.sampled_from([None, 2]), rekey=st.sampled_from([False, False, True]), seed=seeds)), 90)
def samples(c, ctx):
    n, nv = c["n"], c["nv"]
    X = tree_ids(c["shape"], n)
    sup, unc = c["sup"], c["unc"] and c["sup"]
    Y = tree_ids("list", n, 100.0) if sup else None
    Yu = tree_ids("list", n, 200.0) if unc else None
    kw = {}
    if c["val"]:
        kw["X_val"] = tree_ids(c["shape"], nv, 1000.0)
        if sup:
            kw["Y_val"] = tree_ids("list", nv, 1100.0)
        if unc:
            kw["Y_val_unc"] = tree_ids("list", nv, 1200.0)
    rec = {"train": [], "val": []}

    def recorder(kind):
        def f(epoch, *a):
            ins, pred = a[:-1], a[-1]

            def put(e, p, *v):
                rec[kind].append((int(e), {k: np.asarray(w).ravel().tolist() for k, w in p.items()}, v))

            jax.debug.callback(put, epoch, {"n": pred["n"], "t": pred["t"]}, *ins)
            return 0.0 * sum(jnp.sum(v) for v in jax.tree.leaves(pred["y"])) - jnp.asarray(epoch, float)

        return f

    model = pmm.SequentialModel([U.Scale(1.0, 0.0), U.Probe()])
    model.compile(0, jax.tree.map(lambda v: v.shape[1:], X))
    if c.get("rekey"):
        # the key that the callback returns is the one that is used from then on
        kw["callback"] = lambda rng, epoch, params: (jax.random.key(1000 + c["seed"] % 991), params)
    with quiet():
        model.train(X, Y, Y_unc=Yu, loss_fn=recorder("train"), val_loss_fn=recorder("val"), batch_size=c["batch"], val_batch_size=c["vb"],
                    epochs=c["epochs"], lr=1e-3, verbose=False, batch_rng=c["seed"] % 997, unroll=c["unroll"], **kw)
    jax.effects_barrier()
    batch = min(c["batch"], n)
    nb = -(-n // batch)
    orders = []
    for e in range(c["epochs"]):
        bs = [(p, v) for ep, p, v in rec["train"] if ep == e]
        expect(len(bs) == nb, lambda: f"epoch {e}: {len(bs)} training batches, expected {nb} for {n} samples in batches of {c['batch']}")
        got = {}
        for p, v in bs:
            ids = [ids_of(t) for t in v]
            expect(len(ids) == 1 + sup + unc, "wrong number of arguments to the loss")
            for j, (t, off) in enumerate(zip(ids, (0, 100, 200))):
                expect([i - off for i in t] == ids[0], lambda: f"epoch {e}: inputs {ids[0]} were paired with {'targets uncertainties'.split()[j - 1]} {t}")
            expect(set(p["t"]) == {1.0}, "training loss was evaluated without the training flag")
            expect(len(set(p["n"])) == 1, "state differs within a batch")
            got[int(p["n"][0])] = ids[0]
        expect(sorted(got) == list(range(e * nb, (e + 1) * nb)), lambda: f"epoch {e}: the batches saw states {sorted(got)}: state is not passed from batch to batch")
        order = [got[k] for k in sorted(got)]
        sizes = sorted(map(len, order))
        expect(sizes == sorted([batch] * (n // batch) + ([n % batch] if n % batch else [])), lambda: f"epoch {e}: batches of {sizes} samples")
        flat = [i for b in order for i in b]
        expect(sorted(flat) == list(range(n)), lambda: f"epoch {e}: samples used {sorted(flat)}, there are {n}")
        orders.append(flat)
    # shuffled anew in every epoch (chance of a false alarm below 1e-10)
    if c.get("rekey"):
        expect(all(o == orders[1] for o in orders[2:]), lambda: f"the callback returns the same key after every epoch, the orders that follow are {orders[1:]}")
    if n >= 13 and len(orders) >= 2:
        expect(any(o != orders[0] for o in orders), "the order of the samples is the same in every epoch")
        expect(any(o != sorted(o) for o in orders), "the samples are not shuffled")
    off = 1000 if c["val"] else 0
    m = nv if c["val"] else n
    groups = {}
    for ep, p, v in rec["val"]:
        expect(set(p["t"]) == {0.0}, "validation was done with the training flag")
        expect(len(set(p["n"])) == 1, "state differs within a validation batch")
        groups.setdefault(int(p["n"][0]), []).append((ep, v))
    expect(sorted(groups) == [nb * e for e in range(c["epochs"] + 1)],
           lambda: f"validation saw the states after {sorted(groups)} training batches, expected one validation per epoch ({nb} batches each) and one before")
    for k, g in sorted(groups.items()):
        flat = []
        for ep, v in g:
            ids = [ids_of(t) for t in v]
            for t, o2 in zip(ids, (0, 100, 200)):
                expect([i - o2 for i in t] == ids[0], lambda: f"validation: inputs {ids[0]} were paired with {t}")
            flat += [i - off for i in ids[0]]
        expect(sorted(flat) == list(range(m)), lambda: f"validation samples used {sorted(flat)}, there are {m}")
        lim = m if c["vb"] <= 0 else min(c["vb"], m)
        expect(max(len(ids_of(v[0])) for _, v in g) <= lim, "validation batch larger than asked for")
    expect(int(model[1].get_state()[0]) % 100000 == int(model[1].get_state()[0]), "validation changed the state")
    ctx.mark(nb > 1 and c["epochs"] > 1)
    ctx.label(c["shape"], "val" if c["val"] else "noval", "remainder" if n % batch else "even")


# --------------------------------------------- size of the validation batches
@CHECK.sub("valsize", st.fixed_dictionaries(dict(
    n=st.integers(2, 11), vb=st.integers(1, 11), frac=st.sampled_from([0.98, 1.02]), loss=st.sampled_from(["mse", "mae", "custom"]),
    seed=seeds)), 60)
def valsize(c, ctx):
    """Training goes on as long as the validation loss is above the target
    loss; the validation loss is the mean over all validation samples, however
    they are divided into batches."""
    r = np.random.default_rng(c["seed"])
    X = r.uniform(0.2, 1.5, (c["n"], 2))
    Y = r.standard_normal((c["n"], 2)) * np.where(np.arange(c["n"]) == 0, 5.0, 1.0)[:, None]
    e = 1.3 * X - 0.1 * X * X - Y
    want = np.mean(np.abs(e)) if c["loss"] == "mae" else np.mean(e ** 2)
    target = float(want * c["frac"])
    ran = []

    def callback(rng, epoch, params):
        jax.debug.callback(lambda k: ran.append(int(k)), epoch)
        return rng, params

    model = pmm.SequentialModel([U.Scale(1.3, -0.1)])
    model.compile(0, (2,))
    fn = (lambda ep, X_, Y_, P: jnp.mean((P - Y_) ** 2)) if c["loss"] == "custom" else c["loss"]
    with quiet():
        model.train(jnp.asarray(X), jnp.asarray(Y), loss_fn=fn, X_val=jnp.asarray(X), Y_val=jnp.asarray(Y), val_batch_size=c["vb"],
                    epochs=2, lr=1e-9, target_loss=target, callback=callback, verbose=False, batch_rng=1)
    jax.effects_barrier()
    stop = target > want
    expect(len(ran) == (0 if stop else 2),
           lambda: f"mean validation loss {want:.6g}, target {target:.6g}: {len(ran)} epochs were run (validation batches of {c['vb']}, {c['n']} samples)")
    ctx.mark(c["n"] % min(c["vb"], c["n"]) != 0)
    ctx.label("stop" if stop else "go")


# ------------------------------------------------------------- reproducible
@CHECK.sub("seeded", st.fixed_dictionaries(dict(
    noise=st.booleans(), n=st.integers(3, 9), batch=st.sampled_from([2, 3, 4]), epochs=st.integers(2, 5), key=st.booleans(),
    variant=st.sampled_from(["same", "verbose", "unroll", "copy", "seed"]), seed=seeds)), 40)
def seeded(c, ctx):
    """Same seeds, same result; printing and unrolling have no influence; a
    different batch seed gives a different result."""
    r = np.random.default_rng(c["seed"])
    X = jnp.asarray(r.uniform(0.2, 1.5, (c["n"], 2)))
    Y = jnp.asarray(r.standard_normal((c["n"], 2)))

    def run(k):
        mods = [U.Scale(1.1, 0.1)] + ([U.Noise(0.3, True)] if c["noise"] else []) + [pmm.modules.Bias(), U.Scale(0.9, 0.05), U.Counter(0.01)]
        m = pmm.SequentialModel(mods, rng=c["seed"] % 89)
        m.compile(c["seed"] % 101, (2,))
        if k and c["variant"] == "copy":
            m = m.copy()
        s = c["seed"] % 997 + (1 if k and c["variant"] == "seed" else 0)
        rng = jax.random.key(s) if c["key"] else s
        with quiet():
            m.train(X, Y, batch_size=c["batch"], epochs=c["epochs"], lr=0.05, batch_rng=rng, verbose=bool(k) and c["variant"] == "verbose",
                    unroll=2 if k and c["variant"] == "unroll" else None, val_loss_fn=lambda e, X_, Y_, P: -jnp.asarray(e, float) - 1)
        jax.effects_barrier()
        return [np.asarray(v) for v in jax.tree.leaves((m.get_params(), m.get_state()))], jax.random.key_data(m.get_rng())

    (a, ka), (b, kb) = run(0), run(1)
    if c["variant"] == "seed":
        big = c["n"] >= 5 and c["batch"] < c["n"]
        # the same permutations by chance: at most 1e-2 per epoch, ignore few epochs
        if big and c["epochs"] >= 5:
            expect(any(not same(x, y) for x, y in zip(a, b)), "different batch seeds give the same training")
        ctx.label("seed")
        return
    tol = 1e-6 if c["variant"] in ("unroll", "verbose") else 1e-9
    for i, (x, y) in enumerate(zip(a, b)):
        close(y, x, tol, tol, f"training twice with the same seeds ({c['variant']}), leaf {i}")
    expect(np.array_equal(ka, kb), f"random key after training differs ({c['variant']})")
    ctx.mark(c["epochs"] > 1)
    ctx.label(c["variant"])


# ------------------------------------------------------------- frozen modules
@CHECK.sub("frozen", st.fixed_dictionaries(dict(
    net=models.pipelines(lo=2, hi=4, extra=("scale", "scale"), tree=models.bare), box=models.boxes(), which=st.sampled_from([15, 5, 7, 10, 1, 2, 14, 3]), when=st.sampled_from(["before", "after", "copy"]),
    thaw=st.sampled_from([0, 0, 0, 0, 5, 2]), seed=seeds)), 64)
def frozen(c, ctx):
    """The parameters of modules frozen at any time before training (before or
    after compilation, before copying) are exactly as before; others train."""
    mods = [models.make(d) for d in c["net"]["mods"]]
    train_me = U.Scale(1.2, 0.1)
    m = pmm.SequentialModel([train_me, pmm.SequentialModel(models.arrange(mods, c["box"]))])
    # contractions need given arrays if frozen before they are compiled
    late = [d["m"] in ("einsum", "matmul", "constant") for d in c["net"]["mods"]]

    def freeze(now):
        for i, q in enumerate(mods):
            if c["which"] >> (i % 4) & 1 and now(i):
                q.freeze()
                if c["thaw"] >> (i % 4) & 1:
                    q.unfreeze()

    if c["when"] == "before":
        freeze(lambda i: not late[i])
    m.compile(c["seed"] % 9973, models.spec_shape(c["net"]["in"]))
    freeze(lambda i: late[i] or c["when"] != "before")
    want = [bool(c["which"] >> (i % 4) & 1) and not c["thaw"] >> (i % 4) & 1 for i in range(len(mods))]
    if c["when"] == "copy":
        m = m.copy()
    x = to_jax(models.data(c["net"]["in"], c["seed"], 3))
    fz = [False, False] + [f for q, f in zip(mods, want) for _ in jax.tree.leaves(q.get_params())]
    p0 = [np.asarray(v) for v in jax.tree.leaves(m.get_params())]
    expect(len(p0) == len(fz), "number of parameter arrays")
    with quiet():
        m.train(x, loss_fn=lambda e, X_, P: sum(jnp.mean(jnp.abs(v) ** 2 + jnp.real(v)) for v in jax.tree.leaves(P)) * 1.0,
                val_loss_fn=lambda e, X_, P: -jnp.asarray(e, float) - 1, epochs=2, lr=0.02, verbose=False, batch_rng=0)
    p1 = [np.asarray(v) for v in jax.tree.leaves(m.get_params())]
    for k, (a, b, f) in enumerate(zip(p0, p1, fz)):
        if f:
            expect(same(a, b), f"frozen parameters {k} were changed by training (frozen {c['when']} compiling)")
    expect(not all(same(a, b) for a, b in zip(p0[:2], p1[:2])) or not all(np.isfinite(v).all() for v in p1) or no_effect(m, x, p0),
           "the module that is not frozen was not trained")
    ctx.mark(any(fz))
    ctx.label(c["when"], "frozen" if any(fz) else "none")


def no_effect(m, x, p0):
    """Do the first two parameters have no influence on the output?"""
    st_ = jax.tree.structure(m.get_params())
    outs = []
    for f in (1.0, 1.01):
        m.set_params(jax.tree.unflatten(st_, [jnp.asarray(v * (f if i < 2 else 1.0)) for i, v in enumerate(p0)]))
        outs.append([np.asarray(v) for v in jax.tree.leaves(m(x))])
    return all(np.allclose(a, b, 1e-6, 1e-6, equal_nan=True) for a, b in zip(*outs))


# ---------------------------------------------------------------- interrupted
@CHECK.sub("interrupt", st.fixed_dictionaries(dict(
    at=st.integers(0, 5), sig=st.sampled_from(["INT", "TERM", "none"]), verbose=st.sampled_from([True, True, False]), n=st.integers(1, 5),
    batch=st.sampled_from([1, 2, 32]), seed=seeds)), 24)
def interrupt(c, ctx):
    """A termination signal during (verbose) training ends it after the epoch,
    with the best parameters so far; the handlers are the user's afterwards."""
    mine = []

    def handler(num, frame):
        mine.append(num)

    sigs = {"INT": signal.SIGINT, "TERM": signal.SIGTERM}
    old = {s: signal.signal(s, handler) for s in sigs.values()}
    try:
        r = np.random.default_rng(c["seed"])
        x, y = r.uniform(0.3, 1.3, 2), r.uniform(-1, 2, 2)
        X, Y = jnp.asarray(np.tile(x, (c["n"], 1))), jnp.asarray(np.tile(y, (c["n"], 1)))
        m = pmm.SequentialModel([U.Scale(1.1, 0.1)])
        m.compile(0, (2,))
        total = 400 if c["sig"] != "none" and c["verbose"] else c["at"] + 1
        ran = []

        def put(e):
            ran.append(int(e))
            if int(e) == c["at"] and c["sig"] != "none" and c["verbose"]:
                os.kill(os.getpid(), sigs[c["sig"]])

        def callback(rng, epoch, params):
            jax.debug.callback(put, epoch, ordered=True)
            return rng, params

        o = dict(lr=0.01, decay=False, b1=0.9, b2=0.999, eps=1e-8, clip=1e3, ramp=0.0, shrink=1.0, epochs=total,
                 target=-np.inf, patience=10**6, min_delta=-np.inf)
        with quiet():
            m.train(X, Y, batch_size=c["batch"], lr=0.01, epochs=total, verbose=c["verbose"], callback=callback, batch_rng=0,
                    val_loss_fn=lambda e, X_, Y_, P: -jnp.asarray(e, float) - jnp.where(jnp.asarray(e) > 0, 1.0, 0.0) - 1e-3 * jnp.mean(P) * 0,
                    early_stopping_patience=10**6)
        jax.effects_barrier()
        for s in sigs.values():
            expect(signal.getsignal(s) is handler, f"the handler of {s!r} was not restored after training")
        if c["sig"] != "none" and c["verbose"]:
            expect(c["at"] + 1 <= len(ran) < total, lambda: f"{c['sig']} in epoch {c['at']}: {len(ran)} of {total} epochs were run")
            expect(not mine, "the signal went to the user's handler during training")
        else:
            expect(len(ran) == total, f"{len(ran)} of {total} epochs were run")
        expect(ran == list(range(len(ran))), "epochs out of order")
        ref = Ref([dict(kind="r", a=1.1, c=0.1)], x, y)
        ref.start()
        nb = -(-c["n"] // min(c["batch"], c["n"]))
        o["epochs"] = len(ran)
        # validation losses 0, 0, -2, -3, ...: the last epoch is the best,
        # unless it is the first, which is not better than the start
        t = [0.0, 0.0] + [-1.0 - k for k in range(1, len(ran) + 1)]
        simulate(ref, o, nb, np.asarray(t), 0)
        for a, b in zip(jax.tree.leaves(m.get_params()), ref.mods[0]["p"]):
            close(np.asarray(a), np.asarray([b]), 2e-5, 2e-5, f"parameters after {len(ran)} epochs")
        ctx.mark(c["sig"] != "none" and c["verbose"])
        ctx.label(c["sig"], "verbose" if c["verbose"] else "quiet")
    finally:
        for s, h in old.items():
            signal.signal(s, h)


# ------------------------------------------------------ data that do not fit
@CHECK.sub("refused", st.fixed_dictionaries(dict(
    shape=st.sampled_from(["bare", "list", "dict"]), n=st.integers(2, 7), nv=st.integers(2, 5), unc=st.booleans(), val=st.booleans(),
    bad=st.sampled_from(["Y", "Y_unc", "X_val", "Y_val", "Y_val_unc", "no Y", "no Y_val_unc", "X", "unknown", "nothing"]),
    how=st.sampled_from(["longer", "shorter", "shape"]), before=st.booleans(), seed=seeds)), 60)
def refused(c, ctx):
    """Data that do not belong together are refused, and the model is as
    before."""
    bad = c["bad"]
    unc, val = c["unc"] or bad in ("Y_unc", "Y_val_unc", "no Y_val_unc"), c["val"] or "val" in bad
    n, nv = c["n"], c["nv"]
    r = np.random.default_rng(c["seed"])

    def one(k):
        return jnp.asarray(r.standard_normal((k, 2)))

    def data(k):
        return {"bare": lambda: one(k), "list": lambda: [one(k), one(k)], "dict": lambda: {"a": one(k), "b": {"c": one(k)}}}[c["shape"]]()

    args = {"X": data(n), "Y": data(n)}
    if unc:
        args["Y_unc"] = jax.tree.map(jnp.abs, data(n))
    if val:
        args["X_val"], args["Y_val"] = data(nv), data(nv)
        if unc:
            args["Y_val_unc"] = jax.tree.map(jnp.abs, data(nv))
    model = pmm.SequentialModel([U.Scale(1.1, 0.1), U.Counter(0.5)])
    model.compile(3, jax.tree.map(lambda v: v.shape[1:], args["X"]))
    kw = dict(batch_size=3, epochs=2, lr=0.1, verbose=False, batch_rng=1, loss_fn="mse_unc" if unc else "mse")
    good = dict(args)
    if c["before"]:
        with quiet():
            model.train(good["X"], good["Y"], **{k: v for k, v in good.items() if k not in "XY"}, **kw)
    if bad in args:
        leaves, struct = jax.tree.flatten(args[bad])
        j = int(r.integers(len(leaves)))
        v = leaves[j]
        leaves[j] = {"longer": lambda: jnp.concatenate([v, v[:1]]), "shorter": lambda: v[:-1],
                     "shape": lambda: jnp.concatenate([v, v], axis=1)}[c["how"]]()
        args[bad] = jax.tree.unflatten(struct, leaves)
    elif bad in ("no Y", "no Y_val_unc"):
        args[bad[3:]] = None
        if bad == "no Y" and not (val or unc):
            raise Discard
    elif bad == "unknown":
        kw["loss_fn"] = "mean squared error"
    snap = lambda: [np.asarray(v) for v in jax.tree.leaves((model.get_params(), model.get_state()))] + [
        np.asarray(v) for o in jax.tree.leaves(getattr(model, "_optimizer_state", None)) for v in [o]]
    before = snap()
    key = np.asarray(jax.random.key_data(model.get_rng()))
    try:
        with quiet():
            model.train(args["X"], args["Y"], **{k: v for k, v in args.items() if k not in "XY"}, **kw)
    except Exception:
        expect(bad != "nothing", "training with fitting data was refused")
        now = snap()
        expect(len(now) == len(before) and all(same(a, b) for a, b in zip(now, before)), "refused training changed the model")
        # and it can still be trained
        with quiet():
            model.train(good["X"], good["Y"], **{k: v for k, v in good.items() if k not in "XY"}, **{**kw, "loss_fn": "mse_unc" if unc else "mse"})
    else:
        expect(bad == "nothing", lambda: f"training accepted data that do not fit: {bad} {c['how'] if bad in args else ''}, "
               f"shapes {jax.tree.map(lambda v: v.shape, args)}")
    ctx.mark(bad != "nothing")
    ctx.label(bad)
