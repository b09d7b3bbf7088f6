"""C18 prediction intervals of conformalized models."""
import contextlib
import io
import pathlib
import tempfile

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import conf, gen
from pbt import usermods as U
from pbt.conf import ALPHAS, SETUP, ConformalizedModel, Setup, leaves, level
from pbt.core import Check, Discard, close, expect, fail, near, same
from pbt.gen import seeds
from pbt.sut import pmm, to_jax

CHECK = Check(
    "C18",
    "random models from PyTrees to PyTrees, random calibration sets (3 to 31 "
    "samples) with residuals of several sizes, random options of the "
    "calibration and random miscoverage levels; the oracle is the order "
    "statistic of the calibration scores, the count of calibration points "
    "inside, and equality with freshly calibrated models; non-trivial: "
    "several outputs or several levels, and a finite interval",
)


def usable(u):
    return all(np.all(np.isfinite(v)) and np.all(v > 1e-200) for v in u)


def bracket(s, n, alpha):
    """Bounds on the quantile of the scores s (samples first) for alpha."""
    lo, hi = level(n, alpha)
    o = np.sort(s, axis=0)
    inf = np.full(s.shape[1:], np.inf)
    return (o[lo - 1] if lo >= 1 else np.zeros(s.shape[1:])) if lo <= n else inf, o[hi] if hi < n else (o[n - 1] if hi == n else inf)


CASE = st.fixed_dictionaries(dict(
    setup=SETUP, alphas=st.lists(ALPHAS, min_size=1, max_size=4, unique=True), default=ALPHAS,
    edge=st.sampled_from([0, 0, 0, 3e-4, -3e-4, 3e-3, -3e-3, 1e-6, -1e-6]),
    form=st.sampled_from(["list", "tuple", "array", "numpy"]), warm=st.sampled_from([0, 1, 2]), bs2=st.sampled_from([None, 2])))


def as_form(alphas, form):
    if form == "list":
        return list(alphas)
    if form == "tuple":
        return tuple(alphas)
    return jnp.asarray(alphas) if form == "array" else np.asarray(alphas)


def pairs(res, k):
    """The list of (lower, upper) of a result."""
    expect(isinstance(res, tuple) and len(res) == 2, "result is not (prediction, intervals)")
    if k == 1:
        expect(isinstance(res[1], tuple) and len(res[1]) == 2, "one level: the intervals are not a pair")
        return [res[1]]
    expect(isinstance(res[1], list) and len(res[1]) == k, f"{k} levels: the intervals are not a list of {k} pairs")
    return res[1]


def tol_of(pred, half):
    return 1e-9 * (np.abs(pred).max() + np.where(np.isfinite(half), half, 0).max() + 1e-300)


@CHECK.sub("intervals", CASE, 150)
def intervals(case, ctx):
    s = Setup(case["setup"])
    n = s.c["n"]
    cm = s.calibrate(s.conformal(case["default"]))
    X = to_jax(s.x_test)
    unc = None if s.x_unc is None else to_jax(s.x_unc)
    cal_unc = None if s.cal_unc is None else to_jax(s.cal_unc)
    Xc = to_jax(s.x_cal)
    u_cal = leaves(cm.uncertainty_heuristic(Xc, X_unc=cal_unc))
    if not usable(u_cal):
        raise Discard("uncertainty of a calibration point is zero")
    y = leaves(s.y_cal)
    alphas = case["alphas"]
    if case["edge"]:
        # just above or below a level at which the number of points changes
        a = (1 + case["setup"]["seed"] % n) / (n + 1)
        near_a = a - case["edge"]
        if a + case["edge"] not in alphas and near_a not in alphas:
            alphas = [a + case["edge"], *alphas[1:]]
            if case["warm"]:
                cm.get_qhat(near_a)
    k = len(alphas)
    if case["warm"]:
        # quantiles that were asked for before
        cm.get_qhat(alphas[-1])
    res_cal = cm(Xc, X_unc=cal_unc, alpha=as_form(alphas, case["form"]), max_batch_size=s.c["bs"])
    ps = pairs(res_cal, k)
    pred = leaves(res_cal[0])
    for p, v in zip(pred, y):
        expect(p.shape == v.shape, lambda: f"predictions have shape {p.shape}, targets {v.shape}")
    scores = [np.abs(a - b) / w for a, b, w in zip(y, pred, u_cal)]
    finite = False
    by_alpha = {}
    for a, (lo, hi) in zip(alphas, ps):
        by_alpha[a] = (leaves(lo), leaves(hi))
        expect(gen.same_struct(lo, res_cal[0]) and gen.same_struct(hi, res_cal[0]), "structure of the intervals")
        kmin, kmax = level(n, a)
        for j, (yl, l, h, p, sc, u) in enumerate(zip(y, leaves(lo), leaves(hi), pred, scores, u_cal)):
            expect(l.shape == yl.shape and h.shape == yl.shape, f"intervals of shape {l.shape}, {h.shape} for targets {yl.shape}")
            if kmin > n:
                expect(np.all(l == -np.inf) and np.all(h == np.inf),
                       lambda: f"alpha={a} needs more than {n} calibration points, but the interval is bounded: {l.ravel()[0]}, {h.ravel()[0]}")
                continue
            if kmax > n and np.any(np.isinf(l)):
                continue
            half = (h - l) / 2
            finite = True
            t = tol_of(p, half) + tol_of(yl, half)
            inside = ((yl >= l - t) & (yl <= h + t)).sum(axis=0)
            expect(np.all(inside >= kmin),
                   lambda: f"alpha={a}: {inside.min()} of {n} calibration points inside, at least {kmin} needed (output {j})")
            close((h + l) / 2, p, 1e-9, t, "middle of the interval")
            qlo, qhi = bracket(sc, n, a)
            q = half / u
            r = 1e-7 * (np.abs(q) + np.abs(qlo)) + 4 * t / u
            expect(np.all(q >= qlo - r) and np.all(q <= qhi + r),
                   lambda: f"alpha={a}: half width / uncertainty is {q.ravel()[0]!r}, outside of the order statistics "
                           f"{qlo.ravel()[0]!r} to {qhi.ravel()[0]!r} of {n} scores (output {j})")
    # a smaller alpha gives a wider interval
    for a in alphas:
        for b in alphas:
            if a < b:
                for la, lb, ha, hb in zip(by_alpha[a][0], by_alpha[b][0], by_alpha[a][1], by_alpha[b][1]):
                    ok = np.isfinite(la) & np.isfinite(ha)
                    t = 1e-9 * (1 + np.abs(la) + np.abs(ha))
                    expect(np.all(~ok | ((la <= lb + t) & (ha >= hb - t))),
                           f"interval for alpha={b} is not inside of that for alpha={a}")
    # new points: prediction -+ quantile * uncertainty, one level at a time,
    # in any order, and for any batch size
    res = cm(X, X_unc=unc, alpha=as_form(alphas, case["form"]))
    ut = leaves(cm.uncertainty_heuristic(X, X_unc=unc))
    ps = pairs(res, k)
    for a, (lo, hi) in zip(alphas, ps):
        one = cm(X, X_unc=unc, alpha=float(a), max_batch_size=case["bs2"])
        got = pairs(one, 1)[0]
        q = leaves(cm.get_qhat(float(a)))
        for p, p1, l, h, l1, h1, qq, u in zip(leaves(res[0]), leaves(one[0]), leaves(lo), leaves(hi), leaves(got[0]), leaves(got[1]), q, ut):
            w = qq * u
            if not np.all(np.isfinite(w)):
                expect(np.all((l == -np.inf) | (u <= 0)) and np.all((h == np.inf) | (u <= 0)), "unbounded interval is bounded for new points")
                continue
            t = tol_of(p, w)
            close(p1, p, 1e-9, t, "prediction for one level and several levels")
            close(l1, l, 1e-9, t, f"lower end for alpha={a}, alone and with others {alphas}")
            close(h1, h, 1e-9, t, f"upper end for alpha={a}, alone and with others {alphas}")
            close(l, p - w, 1e-9, t, "lower end and prediction - quantile * uncertainty")
            close(h, p + w, 1e-9, t, "upper end and prediction + quantile * uncertainty")
    # the default level
    d = cm(X, X_unc=unc)
    e = cm(X, X_unc=unc, alpha=case["default"])
    for p, q in zip(gen.flat(d), gen.flat(e)):
        expect(near(np.asarray(p[1]), np.asarray(q[1])), "default alpha differs from the same alpha passed explicitly")
    for p, q in zip(leaves(cm.get_qhat()), leaves(cm.get_qhat(case["default"]))):
        expect(near(p, q), "quantile for the default alpha differs from that for the same alpha passed explicitly")
    # with a report, and with the state
    with contextlib.redirect_stdout(io.StringIO()):
        f = cm(X, X_unc=unc, alpha=as_form(alphas, case["form"]), verbose=True, return_state=True, newline=bool(n % 2), clearline=True,
               avoid_recompilation=bool(n % 2))
    expect(isinstance(f, tuple) and len(f) == 3, "no state returned")
    for (p, v), (q, w) in zip(gen.flat(f[:2]), gen.flat(res)):
        v, w = np.asarray(v), np.asarray(w)
        expect(p == q and np.array_equal(np.isfinite(v), np.isfinite(w)), "asking for the state or a report changed the answer")
        ok = np.isfinite(w)
        if ok.any():
            close(v[ok], w[ok], 1e-8, 1e-8 * (1 + np.abs(w[ok]).max()), "answer with a report and the state")
    # sample by sample
    i = case["setup"]["seed"] % s.c["m"]
    one = cm(gen.tmap(lambda v: jnp.asarray(v[i:i + 1]), s.x_test),
             X_unc=None if unc is None else gen.tmap(lambda v: v[i:i + 1], unc), alpha=as_form(alphas, case["form"]))
    for (_, v), (_, w) in zip(gen.flat(one), gen.flat(res)):
        v, w = np.asarray(v), np.asarray(w)[i:i + 1]
        expect(np.array_equal(np.isfinite(v), np.isfinite(w)), "unbounded for a sample alone")
        ok = np.isfinite(v)
        if ok.any():
            close(v[ok], w[ok], 1e-8, 1e-8 * (1 + np.abs(w[ok]).max()), "a sample evaluated alone")
    ctx.mark(finite and (k > 1 or sum(v[0].size for v in pred) > 1))
    ctx.label(s.c["mode"], case["form"], "n%d" % n)


# -------------------------------------------------------------- unsupervised
UNS = st.fixed_dictionaries(dict(
    tree=gen.trees(gen.leaf_of(s=st.sampled_from([[1], [2], [3], [2, 2]])), max_leaves=3),
    n=st.sampled_from([3, 5, 9, 16]), alpha=ALPHAS, bias=st.sampled_from([None, True]), train=st.booleans(), seed=seeds))


@CHECK.sub("unsupervised", UNS, 64)
def unsupervised(c, ctx):
    """Without targets, the inputs are the targets."""
    m = pmm.SequentialModel([U.Scale(0.9, 0.05), U.Scale(1.05, -0.1)])
    m.compile(0, gen.build(c["tree"], lambda t, p: tuple(t["s"])))
    i = iter(range(99))

    def data(n, salt):
        return to_jax(gen.build(c["tree"], lambda t, p: gen.arr(c["seed"] + 17 * next(i) + salt, [n, *t["s"]])))

    x, tr = data(c["n"], 0), data(7, 5)
    kw = dict(stratified_bias_corrections=c["bias"], skip_sanity_checks=True, **({"X_train": tr} if c["train"] else {}))
    a, b = ConformalizedModel(m), ConformalizedModel(m)
    with conf.warnings.catch_warnings():
        conf.warnings.simplefilter("ignore")
        a.calibrate(x, **kw)
        b.calibrate(x, x, **kw)
    u = leaves(a.uncertainty_heuristic(x))
    if not usable(u):
        raise Discard("uncertainty of a calibration point is zero")
    p, (lo, hi) = a(x, alpha=c["alpha"])
    q, (lo2, hi2) = b(x, alpha=c["alpha"])
    for v, w in zip(leaves([p, lo, hi]), leaves([q, lo2, hi2])):
        expect(near(v, w), "calibration without targets differs from calibration with the inputs as targets")
    kmin, _ = level(c["n"], c["alpha"])
    for v, l, h in zip(leaves(x), leaves(lo), leaves(hi)):
        t = 1e-9 * (1 + np.abs(v).max())
        cnt = ((v >= l - t) & (v <= h + t)).sum(axis=0)
        expect(np.all(cnt >= min(kmin, c["n"])), f"{cnt.min()} of {c['n']} calibration points inside, at least {kmin} needed")
        if kmin > c["n"]:
            expect(np.all(np.isinf(l)), "bounded interval with too few calibration points")
    ctx.mark(kmin <= c["n"])


# ------------------------------------------------------------------ histories
OP = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("calibrate"), which=st.integers(0, 2))),
    st.fixed_dictionaries(dict(op=st.just("call"), alphas=st.lists(st.sampled_from([0.1, 0.3, 0.5, 0.04]), min_size=1, max_size=3, unique=True))),
    st.fixed_dictionaries(dict(op=st.just("qhat"), alphas=st.lists(st.sampled_from([0.1, 0.3, 0.5, 0.04]), min_size=1, max_size=3, unique=True))),
    st.fixed_dictionaries(dict(op=st.just("restore"), how=st.sampled_from(["dict", "file", "compressed"]))),
    st.fixed_dictionaries(dict(op=st.just("params"), f=st.sampled_from([0.5, 1.5]))),
)
# which: the set of samples and options used for a calibration
CAL = st.fixed_dictionaries(dict(op=st.just("calibrate"), which=st.integers(0, 2)))
ASK = st.fixed_dictionaries(dict(op=st.sampled_from(["call", "qhat"]), alphas=st.lists(st.sampled_from([0.3, 0.5, 0.1, 0.04]), min_size=1, max_size=2, unique=True)))
HIST = st.fixed_dictionaries(dict(setup=SETUP, ops=st.tuples(
    st.lists(OP, max_size=1), CAL.map(lambda o: [o]), ASK.map(lambda o: [o]), st.lists(OP, max_size=2), CAL.map(lambda o: [o]),
    st.lists(OP, max_size=2), ASK.map(lambda o: [o])).map(lambda t: [o for p in t for o in p])))


@CHECK.sub("history", HIST, 48)
def history(case, ctx):
    """After any history, a model answers as one freshly calibrated in the way
    of its last calibration."""
    c = case["setup"]
    variants = [dict(), dict(mode="params", bias="global", par="on"), dict(dist="off", inp="off", par="on", bias="none", noise=c["noise"] * 3)]
    sets = []
    for i, v in enumerate(variants):
        sets.append(Setup({**c, **v}, salt=i))
    model = sets[0].model
    for s in sets:
        s.model = model
    cm = sets[0].conformal()
    last = None
    asked = 0
    X = to_jax(sets[0].x_test)
    seen_calibrations = 0
    for op in case["ops"]:
        if op["op"] == "calibrate":
            last = (sets[op["which"]], cm.model.get_params())
            last[0].calibrate(cm)
            seen_calibrations += 1
            continue
        if last is None:
            for f in (lambda: cm(X), lambda: cm.get_qhat(0.3)):
                try:
                    f()
                except ValueError:
                    continue
                fail("a model that was not calibrated gave an answer")
            if op["op"] in ("call", "qhat"):
                continue
        if op["op"] == "restore":
            if op["how"] == "dict":
                cm = ConformalizedModel.deserialize(cm.serialize())
            else:
                with tempfile.TemporaryDirectory() as d:
                    f = str(pathlib.Path(d) / "cm.npz")
                    (cm.save if op["how"] == "file" else cm.save_compressed)(f)
                    cm = ConformalizedModel.from_file(f)
            continue
        if op["op"] == "params":
            # only between calibrations: a calibration belongs to parameters
            last = None if last is None else last
            if last is not None:
                continue
            cm.model.set_params(conf.jax_map(lambda v: v * op["f"], cm.model.get_params()))
            continue
        s, par = last
        model2 = conf.model_of(c)
        model2.set_params(par)
        fresh = ConformalizedModel(model2, nn_dist_quantile=c["q"])
        s.calibrate(fresh)
        if op["op"] == "qhat":
            a, b = cm.get_qhat(list(op["alphas"])), fresh.get_qhat(list(op["alphas"]))
        else:
            a, b = cm(X, alpha=tuple(op["alphas"])), fresh(X, alpha=tuple(op["alphas"]))
        fa, fb = gen.flat(a), gen.flat(b)
        expect([p for p, _ in fa] == [p for p, _ in fb], "structure of the answer depends on the history")
        for (p, v), (_, w) in zip(fa, fb):
            v, w = np.asarray(v), np.asarray(w)
            # (levels asked for alone or together: quantiles may differ in the
            # last digit)
            with np.errstate(invalid="ignore"):
                tol = 1e-10 * (np.abs(v) + np.abs(w) + np.abs(w[np.isfinite(w)]).max(initial=0))
                agree = v.shape == w.shape and np.all(
                    (v == w) | (np.isnan(v) & np.isnan(w)) | (np.isfinite(v) & np.isfinite(w) & (np.abs(v - w) <= tol)))
            expect(agree,
                   lambda: f"{op} after this history: {np.asarray(v).ravel()[:3]}, freshly calibrated {np.asarray(w).ravel()[:3]}")
        asked += 1
    ctx.mark(asked and seen_calibrations > 1)


# ---------------------------------------------------------------- invalid use
BAD = st.fixed_dictionaries(dict(
    alpha=st.sampled_from([0.0, 1.0, -0.2, 1.5, 2.0]), pos=st.integers(0, 2), k=st.integers(1, 3), seed=seeds,
    form=st.sampled_from(["list", "tuple", "array", "scalar"])))


@CHECK.sub("levels", BAD, 40)
def levels(c, ctx):
    """Levels outside of (0, 1) are rejected, wherever they occur."""
    m = pmm.SequentialModel([U.Scale(0.9, 0.05)])
    m.compile(0, (2,))
    x = jnp.asarray(gen.arr(c["seed"], [6, 2]))
    cm = ConformalizedModel(m)
    cm.calibrate(x, x + 0.1 * jnp.asarray(gen.arr(c["seed"] + 1, [6, 2])), skip_sanity_checks=True)
    al = [0.3] * c["k"]
    al[c["pos"] % c["k"]] = c["alpha"]
    a = c["alpha"] if c["form"] == "scalar" else as_form(al, c["form"])
    for f in (lambda: cm(x, alpha=a), lambda: cm.get_qhat(a)):
        try:
            f()
        except ValueError:
            continue
        fail(f"alpha={a} accepted")
    ctx.mark()
