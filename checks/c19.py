"""C19 uncertainties of conformalized models."""
import pathlib
import tempfile
import warnings

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import conf, gen
from pbt.conf import SETUP, ConformalizedModel, Setup, leaves, level
from pbt.core import Check, Discard, close, expect, near, same
from pbt.gen import seeds
from pbt import usermods as U
from pbt.sut import pmm, to_jax

CHECK = Check(
    "C19",
    "random models from PyTrees to PyTrees (quadratic, so that all "
    "derivatives are known), random training and calibration data with "
    "continuous and categorical leaves, constant and repeated features, every "
    "combination of sensitivities (on, off, per leaf or parameter), bias "
    "corrections and input uncertainties; the oracle is the documented "
    "formula in numpy, metamorphic relations, and restored models; "
    "non-trivial: at least two kinds of sensitivities, a mask or a bias "
    "correction",
)


def agree(got, want, what, rtol=1e-8):
    got = leaves(got)
    expect(len(got) == len(want), f"{what}: {len(got)} leaves, expected {len(want)}")
    for j, (g, w) in enumerate(zip(got, want)):
        expect(g.shape == w.shape, lambda: f"{what}: leaf {j} of shape {g.shape}, expected {w.shape}")
        scale = np.abs(w[np.isfinite(w)]).max() if np.isfinite(w).any() else 0
        close(g, w, rtol, rtol * scale + 1e-300, f"{what} (leaf {j})")


FORM = st.fixed_dictionaries(dict(setup=SETUP))


@CHECK.sub("formula", FORM, 170)
def formula(case, ctx):
    s = Setup(case["setup"])
    c = s.c
    # an equal point may be closer or farther than the cutoff by rounding
    ref = s.ref()
    X = to_jax(s.x_test)
    unc = None if s.x_unc is None else to_jax(s.x_unc)
    want_parts = ref.parts(s.x_test, s.x_unc, raw=True)
    want = ref.u(s.x_test, s.x_unc)
    if not ref.exact:
        raise Discard("a point lies on the cutoff")
    if any(not np.all(np.isfinite(v)) for v in want + ref.scores):
        raise Discard("no finite uncertainty")
    cm = s.calibrate(s.conformal())
    if "params" in want_parts:
        agree(cm.parameter_sensitivity(X, normalize=False), want_parts["params"], "sensitivity to the parameters")
    if "input" in want_parts:
        agree(cm.input_sensitivity(X, X_unc=unc, normalize=False), want_parts["input"], "sensitivity to the inputs")
    if "dist" in want_parts:
        d = np.asarray(cm.distance_sensitivity(X, normalize=False))
        w = want_parts["dist"][0].reshape(len(d), -1)[:, :1]
        close(d.reshape(len(d), -1), w, 1e-8, 1e-9, "distance to the training data")
    agree(cm.uncertainty_heuristic(X, X_unc=unc), want, "uncertainty")
    res, (lo, hi) = cm(X, X_unc=unc, alpha=0.5)
    agree(res, ref.corrected(s.x_test), "prediction")
    # half widths follow from the documented scores
    n = c["n"]
    kmin, kmax = level(n, 0.5)
    for j, (l, h, u, sc) in enumerate(zip(leaves(lo), leaves(hi), want, ref.scores)):
        o = np.sort(sc, axis=0)
        q1, q2 = o[kmin - 1], o[min(kmax, n - 1)]
        half = (h - l) / 2
        t = 1e-7 * (np.abs(half) + np.abs(h) + u * q2)
        expect(np.all(half >= q1 * u - t) and np.all(half <= q2 * u + t),
               lambda: f"half width {half.ravel()[0]!r}, expected {(q1 * u).ravel()[0]!r} to {(q2 * u).ravel()[0]!r}")
    ctx.mark(len(want_parts) > 1 or c["bias"] in ("global", "strata") or "mask" in (c["par"], c["inp"], c["dist"]))
    ctx.label(c["mode"], "bias-" + c["bias"], "+".join(sorted(want_parts)))


# ------------------------------------------------------- metamorphic relations
META = st.fixed_dictionaries(dict(
    setup=SETUP, rel=st.sampled_from(["order", "batch", "units", "offset", "duplicates", "targets", "unc0"]),
    f=st.sampled_from([0.25, 8.0]), wunc=st.booleans()))


@CHECK.sub("relations", META, 90)
def relations(case, ctx):
    """Changes of the calibration that cannot matter."""
    base = dict(case["setup"])
    rel = case["rel"]
    base["bs"] = None
    if rel in ("units", "offset", "duplicates", "unc0"):
        base["mode"] = "train"
    if rel == "offset" and base["bias"] != "strata":
        base["bias"] = "global"
    if rel == "units":
        base["bias"] = "none"
    wunc = case["wunc"] or rel == "targets"
    if rel == "unc0":
        base["calunc"] = base["xunc"] = False
    s = Setup(base)
    kw = {}
    if wunc:
        # uncertainties of the targets: only relative sizes matter
        rng = iter(range(99))
        yu = gen.tmap(lambda v: 0.2 + np.abs(gen.arr(s.c["seed"] + next(rng), v.shape)), s.y_cal)
        kw["Y_cal_unc"] = to_jax(yu)
    a = s.calibrate(s.conformal(), **kw)
    X = to_jax(s.x_test)
    unc = None if s.x_unc is None else to_jax(s.x_unc)
    over, call, factor = dict(kw), {}, 1.0
    if rel == "order":
        if wunc:
            # points of (up to rounding) the same sensitivity: see "ties"
            for v in s.ref().parts(s.x_cal, s.cal_unc, raw=True).values():
                for q in v:
                    o = np.sort(q.reshape(len(q), -1), axis=0)
                    if np.any(np.diff(o, axis=0) <= 1e-7 * np.abs(o).max()):
                        raise Discard("tied sensitivities")
        p = np.random.default_rng(s.c["seed"]).permutation(s.c["n"])
        over["X_cal"] = gen.tmap(lambda v: jnp.asarray(v[p]), s.x_cal)
        over["Y_cal"] = gen.tmap(lambda v: jnp.asarray(v[p]), s.y_cal)
        if s.cal_unc is not None:
            over["X_cal_unc"] = gen.tmap(lambda v: jnp.asarray(v[p]), s.cal_unc)
        if wunc:
            over["Y_cal_unc"] = gen.tmap(lambda v: jnp.asarray(v[p]), yu)
        if s.x_train is not None:
            p2 = np.random.default_rng(s.c["seed"] + 1).permutation(s.c["nt"])
            over["X_train"] = gen.tmap(lambda v: jnp.asarray(v[p2]), s.x_train)
    elif rel == "batch":
        over["max_batch_size"] = 2
        call["max_batch_size"] = 2
    elif rel == "duplicates":
        # repeated training points change the interquartile range, not the
        # distances: turn off the former
        over["input_sensitivity"] = kw["input_sensitivity"] = False
        if not (any(s.flags["par"]) or any(s.flags["dist"])):
            raise Discard("no sensitivity turned on")
        a = s.calibrate(s.conformal(), **kw)
        over["X_train"] = gen.tmap(lambda v: jnp.asarray(np.concatenate([v, v[:1], v])), s.x_train)
    elif rel == "targets":
        # another unit of the target uncertainties
        if not case["wunc"]:
            raise Discard("no target uncertainties")
        over["Y_cal_unc"] = gen.tmap(lambda v: jnp.asarray(v * case["f"]), yu)
    elif rel == "unc0":
        over["X_cal_unc"] = gen.tmap(lambda v: jnp.zeros_like(jnp.asarray(v)), s.x_cal)
    elif rel == "offset":
        # residuals of a biased model: a global or stratified correction
        # removes a constant
        if s.c["bias"] not in ("global", "strata"):
            raise Discard("no bias correction")
        over["Y_cal"] = gen.tmap(lambda v: jnp.asarray(v + case["f"]), s.y_cal)
        factor = None
    elif rel == "units":
        # residuals twice as large: intervals twice as large
        pred = s.model(to_jax(s.x_cal))
        over["Y_cal"] = gen.tmap(lambda y, p: jnp.asarray(np.asarray(p) + case["f"] * (y - np.asarray(p))), s.y_cal, pred)
        factor = case["f"]
    b = s.calibrate(s.conformal(), **over)
    pa, (la, ha) = a(X, X_unc=unc, alpha=0.5)
    pb, (lb, hb) = b(X, X_unc=unc if rel != "unc0" else to_jax(gen.tmap(lambda v: v * 0, s.x_test)), alpha=0.5, **call)
    ua = leaves(a.uncertainty_heuristic(X, X_unc=unc))
    if s.x_train is not None and any(s.flags["dist"]):
        r = s.ref()
        r.distance(s.x_test), r.distance(s.x_cal)
        if not r.exact:
            raise Discard("a point lies on the cutoff")
    for j, (p, q, l, h, l2, h2, u) in enumerate(zip(*map(leaves, (pa, pb, la, ha, lb, hb)), ua)):
        if not (np.all(np.isfinite(l)) and np.all(np.isfinite(h)) and np.all(u > 0)):
            raise Discard("no finite uncertainty")
        w, w2 = (h - l) / 2, (h2 - l2) / 2
        t = 1e-8 * (np.abs(p).max() + w.max() + case["f"])
        close(q, p + (case["f"] if factor is None else 0), 1e-8, t, f"prediction after changing: {rel}")
        close(w2, w * (factor or 1.0), 1e-7, t, f"half width after changing: {rel}")
    ctx.mark()
    ctx.label(rel, "weights" if wunc else "no weights")


# ----------------------------------------------------------------------- ties
@CHECK.sub("ties", st.fixed_dictionaries(dict(
    x=st.lists(st.sampled_from([1, 2, 3, 5, 8, -2]), min_size=3, max_size=8), w=st.lists(st.sampled_from([1, 2, 3, 4, 6]), min_size=8, max_size=8),
    a=st.sampled_from([1.5, 2.0]), c=st.sampled_from([0.25, 0.5]), wunc=st.sampled_from([True, True, False]), seed=seeds)), 50)
def ties(c, ctx):
    """Calibration points of exactly equal sensitivity, in another order. All
    numbers are small binary fractions, so the sensitivities are exact."""
    m = pmm.SequentialModel([U.Scale(c["a"], c["c"])])
    m.compile(0, (1,))
    n = len(c["x"])
    x = np.asarray(c["x"], float)[:, None] / 4
    r = np.random.default_rng(c["seed"])
    y = np.asarray(m(jnp.asarray(x))) + r.integers(1, 9, (n, 1)) / 8
    yu = np.asarray(c["w"][:n], float)[:, None] / 4
    X = jnp.asarray([[0.5], [-1.25], [3.0]])
    res = []
    for p in (np.arange(n), r.permutation(n)):
        cm = ConformalizedModel(m)
        with conf.warnings.catch_warnings():
            conf.warnings.simplefilter("ignore")
            cm.calibrate(jnp.asarray(x[p]), jnp.asarray(y[p]), skip_sanity_checks=True,
                         X_train=jnp.asarray([[-1.0], [0.0], [1.0], [2.0], [4.0]]), distance_sensitivity=False,
                         **({"Y_cal_unc": jnp.asarray(yu[p])} if c["wunc"] else {}))
        u = leaves(cm.uncertainty_heuristic(jnp.asarray(x)))[0]
        if not (np.all(np.isfinite(u)) and np.all(u > 0)):
            raise Discard("no finite uncertainty")
        pr, (lo, hi) = cm(X, alpha=0.5)
        res.append([u, *(leaves(v)[0] for v in (pr, lo, hi))])
    for a, b in zip(*res):
        if np.all(np.isfinite(a)):
            close(b, a, 1e-8, 1e-8 * np.abs(a).max(), "order of calibration points, some of equal sensitivity")
        else:
            expect(np.array_equal(a, b), "order of calibration points")
    ctx.mark(len(set(c["x"])) < n and c["wunc"])


# ---------------------------------------------------------------------- saved
STORED = st.fixed_dictionaries(dict(
    setup=SETUP, how=st.sampled_from(["dict", "str", "noext", "path", "pathnoext", "file", "compressed", "twice"]),
    name=st.sampled_from([None, "my intervals"]), alpha=st.sampled_from([0.3, 0.05]), warm=st.booleans()))


def restore(cm, how, d):
    f = pathlib.Path(d) / "model.npz"
    if how == "dict":
        return ConformalizedModel.deserialize(cm.serialize())
    if how == "compressed":
        cm.save_compressed(str(f))
        return ConformalizedModel.from_file(str(f))
    if how == "file":
        with open(f, "wb") as h:
            cm.save(h)
        with open(f, "rb") as h:
            return ConformalizedModel.from_file(h)
    t = {"str": str(f), "noext": str(f)[:-4], "path": f, "pathnoext": f.with_suffix(""), "twice": str(f)}[how]
    cm.save(t)
    out = ConformalizedModel.from_file(t)
    return restore(out, "dict", d) if how == "twice" else out


@CHECK.sub("stored", STORED, 60)
def stored(case, ctx):
    s = Setup(case["setup"])
    cm = s.conformal(case["alpha"])
    cm.name = case["name"] or cm.name
    s.calibrate(cm)
    X = to_jax(s.x_test)
    unc = None if s.x_unc is None else to_jax(s.x_unc)
    if case["warm"]:
        cm.get_qhat([0.2, 0.6])
    with tempfile.TemporaryDirectory() as d:
        new = restore(cm, case["how"], d)
    expect(new.name == cm.name, f"restored name {new.name!r}, was {cm.name!r}")
    for call in (lambda m: m(X, X_unc=unc), lambda m: m(X, X_unc=unc, alpha=[0.2, 0.7]),
                 lambda m: m.uncertainty_heuristic(X, X_unc=unc), lambda m: m.get_qhat(0.6), lambda m: m.scores):
        fa, fb = gen.flat(call(cm)), gen.flat(call(new))
        expect([p for p, _ in fa] == [p for p, _ in fb], "structure of the answers of a restored model")
        for (_, v), (_, w) in zip(fa, fb):
            v, w = np.asarray(v), np.asarray(w)
            expect(near(v, w), lambda: f"restored model ({case['how']}): {w.ravel()[:3]}, was {v.ravel()[:3]}")
    ctx.mark()
    ctx.label(case["how"], s.c["mode"])
