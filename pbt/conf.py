"""Conformal prediction: random calibrations, and a reference in numpy for the
documented uncertainties."""
import contextlib
import io
import math
import warnings

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from . import gen
from . import usermods as U
from .core import Discard
from .gen import seeds
from .sut import pmm, to_jax

from parametricmatrixmodels.conformal import ConformalizedModel  # noqa: E402

ILEAF = gen.leaf_of(s=st.sampled_from([[1], [2], [2, 2]]), cat=st.sampled_from([False, False, True]), const=st.sampled_from([False, False, False, True]))
OLEAF = gen.leaf_of(s=st.sampled_from([[1], [2], [3, 2]]))
FLAGS = st.sampled_from(["on", "on", "on", "off", "mask", "mask"])
ALPHAS = st.one_of(st.sampled_from([0.1, 0.05, 0.5, 0.25, 0.01, 0.9, 0.999, 0.3173]), st.floats(0.001, 0.999))
SETUP = st.fixed_dictionaries(dict(
    ins=gen.trees(ILEAF, max_leaves=3),
    outs=gen.trees(OLEAF, max_leaves=3),
    scale=st.sampled_from([False, True]),
    wrap=st.sampled_from(["list", "dict"]),
    mode=st.sampled_from(["train", "train", "train", "params"]),
    n=st.sampled_from([3, 5, 9, 20]),
    nt=st.sampled_from([2, 6, 13, 1]),
    m=st.sampled_from([1, 3]),
    q=st.sampled_from([0.5, 0.5, 0.2, 0.9, 1.0, 0.0]),
    par=FLAGS, inp=FLAGS, dist=FLAGS,
    mask=st.lists(st.booleans(), min_size=12, max_size=12),
    bias=st.sampled_from(["none", "none", "global", "strata", "false"]),
    xunc=st.sampled_from([False, False, True]),
    calunc=st.sampled_from([False, False, True]),
    bs=st.sampled_from([None, None, None, 4]),
    noise=st.sampled_from([0.1, 1.0, 10.0]),
    dup=st.booleans(),
    seed=seeds,
))
CATS = np.asarray([0.0, 1.0, 2.5, -1.0])


def inputs(c, n, salt):
    """Data of the case: n samples as a PyTree of numpy arrays."""
    i = iter(range(99))

    def leaf(t, path):
        k = next(i)
        r = np.random.default_rng([c["seed"], salt, k])
        if t["cat"]:
            return CATS[r.integers(len(CATS), size=[n, *t["s"]])]
        x = r.standard_normal([n, *t["s"]]) * (1 + k)
        if t["const"] and salt == 1:
            x[..., 0] = 1.5
        if c["dup"] and n > 2:
            x[-1] = x[0]
        return x

    return gen.build(c["ins"], leaf)


def model_of(c):
    poly = U.Poly(c["outs"], seed=c["seed"] % 99991)
    mods = [U.Scale(0.8, -0.2), poly] if c["scale"] else [poly]
    if c["wrap"] == "dict":
        mods = {k: v for k, v in zip("ab", mods)}
    m = pmm.SequentialModel(mods)
    m.compile(0, gen.build(c["ins"], lambda t, p: tuple(t["s"])))
    return m


def leaves(t):
    return [np.asarray(v) for _, v in gen.flat(t)]


def flat2(t):
    ls = leaves(t)
    return np.concatenate([v.reshape(len(v), -1) for v in ls], axis=1)


class Ref:
    """What the documentation says, in numpy. Predictions are lists of leaves."""

    def __init__(self, c, x_cal, y_cal, x_train, cal_unc, flags):
        self.c, self.flags = c, flags
        specs = [s for _, s in gen.leaf_specs(c["ins"])]
        self.sizes = [int(np.prod(s["s"])) for s in specs]
        self.cont = [not s["cat"] for s in specs]
        self.outs = [s["s"] for _, s in gen.leaf_specs(c["outs"])]
        d = sum(self.sizes)
        s = c["seed"] % 99991
        self.w = [gen.arr(s + 2 * i, [*o, d]) for i, o in enumerate(self.outs)]
        self.v = [0.3 * gen.arr(s + 2 * i + 1, [*o, d]) for i, o in enumerate(self.outs)]
        self.train = x_train
        self.exact = True
        if x_train is not None:
            self.fit(x_train)
        self.norms = {}
        self.xunc = None
        for name, s in self.parts(x_cal, cal_unc, raw=True).items():
            self.norms[name] = norm(s)
        u = self.u(x_cal, cal_unc)
        y = [np.asarray(v) for v in leaves(y_cal)]
        pred = self.predict(x_cal)
        res = [a - b for a, b in zip(y, pred)]
        self.strata = {}
        if c["bias"] == "global":
            self.bias = [np.median(r, axis=0) for r in res]
        elif c["bias"] == "strata":
            keys = self.keys(x_cal)
            for k in set(keys):
                sel = [i for i, kk in enumerate(keys) if kk == k]
                self.strata[k] = [np.median(r[sel], axis=0) for r in res]
        with np.errstate(divide="ignore", invalid="ignore"):
            self.scores = [np.abs(a - b) / w for a, b, w in zip(y, self.corrected(x_cal), u)]

    def keys(self, x):
        """The categories of the leaves that strata are made of."""
        ls = leaves(x)
        return [tuple(tuple(v[i].ravel()) for v, on in zip(ls, self.flags["strata"]) if on)
                for i in range(len(ls[0]))]

    def corrected(self, x):
        y = self.predict(x)
        if self.c["bias"] == "global":
            return [a + b for a, b in zip(y, self.bias)]
        if self.c["bias"] == "strata":
            zero = [np.zeros(o) for o in self.outs]
            bs = [self.strata.get(k, zero) for k in self.keys(x)]
            return [a + np.stack([b[j] for b in bs]) for j, a in enumerate(y)]
        return y

    def t(self, z):
        return 0.8 * z - 0.2 * z * z if self.c["scale"] else z

    def predict(self, x):
        t = self.t(flat2(x))
        return [np.tensordot(t, w, axes=(1, -1)) + np.tensordot(t * t, v, axes=(1, -1))
                for w, v in zip(self.w, self.v)]

    def parts(self, x, xunc=None, raw=False):
        """Sensitivities: name -> list of arrays (one per output leaf)."""
        c, f = self.c, self.flags
        z = flat2(x)
        t = self.t(z)
        n, d = z.shape
        out = {}
        dt = []  # dy/dt: (n, out, d)
        for w, v in zip(self.w, self.v):
            sh = (n,) + (1,) * (w.ndim - 1) + (d,)
            dt.append(w[None] + 2 * v[None] * t.reshape(sh))
        if any(f["par"]):
            sq, size = [], 0
            off = 2 if c["scale"] else 0
            for i, (w, v) in enumerate(zip(self.w, self.v)):
                sh = (n,) + (1,) * (w.ndim - 1) + (d,)
                tt, zz = t.reshape(sh), z.reshape(sh)
                s = np.zeros((n, *w.shape[:-1]))
                # order of the parameters: [a, c] then v, w of each output
                if f["par"][off + 2 * i]:
                    s = s + ((tt**2 * np.abs(v)) ** 2).sum(-1)
                if f["par"][off + 2 * i + 1]:
                    s = s + ((tt * np.abs(w)) ** 2).sum(-1)
                if c["scale"]:
                    if f["par"][0]:
                        s = s + ((dt[i] * zz).sum(-1) * 0.8) ** 2
                    if f["par"][1]:
                        s = s + ((dt[i] * zz * zz).sum(-1) * 0.2) ** 2
                sq.append(s)
            if c["scale"]:
                size += f["par"][0] + f["par"][1]
            for i, (w, v) in enumerate(zip(self.w, self.v)):
                size += f["par"][off + 2 * i] * v.size + f["par"][off + 2 * i + 1] * w.size
            out["params"] = [s / size for s in sq]
        if self.train is not None:
            on = np.repeat([a and b for a, b in zip(f["inp"], self.cont)], self.sizes)
            if on.any():
                jac = (0.8 - 0.4 * z) if c["scale"] else np.ones_like(z)
                res = []
                for g in dt:
                    sh = (n,) + (1,) * (g.ndim - 2) + (d,)
                    dz = g * jac.reshape(sh)
                    s = ((dz * (self.iqr * on)) ** 2).sum(-1)
                    if xunc is not None:
                        s = s + ((dz * (flat2(xunc) * on).reshape(sh)) ** 2).sum(-1)
                    res.append(s / on.sum())
                out["input"] = res
            if any(f["dist"]):
                s = self.distance(x)
                out["dist"] = [s.reshape((n,) + (1,) * len(o)) for o in self.outs]
        if not raw:
            out = {k: [a / b for a, b in zip(v, self.norms[k])] for k, v in out.items()}
        return out

    def u(self, x, xunc=None):
        n = len(leaves(x)[0])
        tot = [np.zeros((n, *o)) for o in self.outs]
        for v in self.parts(x, xunc).values():
            tot = [a + b for a, b in zip(tot, v)]
        return tot

    # ------------------------------------------------------------- distances
    def fit(self, x):
        z = flat2(x)
        q75, q25 = np.quantile(z, 0.75, axis=0), np.quantile(z, 0.25, axis=0)
        self.iqr = q75 - q25
        r = z.max(0) - z.min(0)
        self.range = np.where(r == 0, 1.0, r)
        self.all_cat = not any(a and b for a, b in zip(self.flags["dist"], self.cont))
        self.nfeat = sum((s if k else 1) for s, k, f in zip(self.sizes, self.cont, self.flags["dist"]) if f)
        if not any(self.flags["dist"]):
            return
        d = self.gower(x, x)
        # points with the same features count once
        keep = [i for i in range(len(d)) if not any(d[i, j] == 0 for j in range(i))]
        self.keep = keep
        d = d[np.ix_(keep, keep)]
        np.fill_diagonal(d, np.inf)
        nn = d.min(axis=1)
        self.cutoff = np.quantile(nn, self.c["q"]) if len(nn) > 1 else np.inf

    def gower(self, x, y):
        """Sum over the features: |difference| / range, or 0/1 for a
        categorical leaf."""
        out, o = 0.0, 0
        zx, zy = flat2(x), flat2(y)
        for s, k, f in zip(self.sizes, self.cont, self.flags["dist"]):
            a, b = zx[:, None, o:o + s], zy[None, :, o:o + s]
            if f:
                if k:
                    out = out + (np.abs(a - b) / self.range[o:o + s]).sum(-1)
                else:
                    out = out + (a != b).any(-1).astype(float)
            o += s
        return out

    def distance(self, x):
        d = self.gower(x, self.train)[:, self.keep]
        near = np.abs(d - self.cutoff) < 1e-9 * (1 + np.abs(d))
        if near.any() and not (self.all_cat and np.array_equal(near, d == self.cutoff)):
            self.exact = False  # whether the point is within the cutoff is rounding
        mean = np.asarray([r[r <= self.cutoff].mean() if (r <= self.cutoff).any() else 0.0 for r in d])
        return np.maximum(mean, d.min(axis=1)) / self.nfeat


def norm(parts):
    """Median absolute deviation over the samples, with the announced
    fallbacks where it vanishes."""
    out = []
    for s in parts:
        for f in (lambda v: np.median(np.abs(v - np.median(v, axis=0)), axis=0),
                  lambda v: np.quantile(v, 0.75, axis=0) - np.quantile(v, 0.25, axis=0),
                  lambda v: np.quantile(v, 0.95, axis=0) - np.quantile(v, 0.05, axis=0),
                  lambda v: v.max(0) - v.min(0)):
            r = f(s)
            if np.any((r > 1e-15) & (r < 1e-9)):
                raise Discard("normalization close to the threshold")
            if not np.any(r < 1e-12):
                break
        else:
            r = np.full_like(r, np.inf)
        out.append(r)
    return out


# ----------------------------------------------------------------- calibrate
class Setup:
    """Everything of a case: data, flags, keyword arguments of calibrate."""

    def __init__(self, c, salt=0):
        self.c = c
        specs = [s for _, s in gen.leaf_specs(c["ins"])]
        paths = {p: i for i, (p, _) in enumerate(gen.leaf_specs(c["ins"]))}
        self.model = model_of(c)
        self.x_train = inputs(c, c["nt"], 1) if c["mode"] == "train" else None
        self.x_cal = inputs(c, c["n"], 2 + 10 * salt)
        self.x_test = inputs(c, c["m"], 3 + 10 * salt)
        has_cat = any(s["cat"] for s in specs)
        if self.x_train is not None:
            # categories that are not in the training data have no documented
            # distance: take those leaves from the training data
            self.x_cal = self.seen(self.x_cal, 4)
            self.x_test = self.seen(self.x_test, 5)
        if c["bias"] == "strata" and (not has_cat or gen.is_leaf(c["ins"])):
            # (True for a bare array means one correction for all samples)
            c = self.c = {**c, "bias": "none"}
        npar = 2 * gen.count_leaves(c["outs"]) + (2 if c["scale"] else 0)
        mask = c["mask"]

        def flag(how, k, off):
            if how == "mask":
                return [mask[(off + i) % len(mask)] for i in range(k)]
            return [how == "on"] * k

        self.flags = dict(par=flag(c["par"], npar, 0), inp=flag(c["inp"], len(specs), 3),
                          dist=flag(c["dist"], len(specs), 6))
        st_ = [s["cat"] and mask[(9 + i) % 12] for i, s in enumerate(specs)]
        if c["bias"] == "strata" and not any(st_):
            st_ = [s["cat"] for s in specs]
        self.flags["strata"] = st_

        def tree(v):
            return gen.build(c["ins"], lambda t, p: bool(v[paths[p]]))

        kw = {}
        if c["par"] == "mask":
            it = iter(self.flags["par"])
            pars = self.model.get_params()
            kw["parameter_sensitivity"] = jax_map(lambda _: next(it), pars)
        elif c["par"] == "off":
            kw["parameter_sensitivity"] = False
        for k, name in (("inp", "input_sensitivity"), ("dist", "distance_sensitivity")):
            if c[k] == "mask":
                kw[name] = tree(self.flags[k])
            elif c[k] == "off":
                kw[name] = False
        if has_cat:
            kw["continuous_features"] = tree([not s["cat"] for s in specs])
        if c["bias"] == "strata":
            kw["stratified_bias_corrections"] = tree(st_)
        elif c["bias"] != "none":
            kw["stratified_bias_corrections"] = c["bias"] == "global"
        if self.x_train is not None:
            kw["X_train"] = to_jax(self.x_train)
        self.cal_unc = self.unc(6, c["n"]) if c["calunc"] and c["mode"] == "train" else None
        self.x_unc = self.unc(7, c["m"]) if c["xunc"] and c["mode"] == "train" else None
        if self.cal_unc is not None:
            kw["X_cal_unc"] = to_jax(self.cal_unc)
        self.kw = kw
        # the reference model predicts the same values as the model (C07)
        noise = [c["noise"] * gen.arr(c["seed"] % 7919 + 31 * salt + i, [c["n"], *s["s"]]) + 0.3 * c["noise"]
                 for i, (_, s) in enumerate(gen.leaf_specs(c["outs"]))]
        pred = leaves(self.model(to_jax(self.x_cal)))
        order = {p: i for i, (p, _) in enumerate(gen.leaf_specs(c["outs"]))}
        self.y_cal = gen.build(c["outs"], lambda t, p: pred[order[p]] + noise[order[p]])
        on = any(self.flags["par"]) or (self.x_train is not None and (
            any(self.flags["dist"]) or any(a and not s["cat"] for a, s in zip(self.flags["inp"], specs))))
        if not on:
            raise Discard("no sensitivity turned on")

    def seen(self, x, salt):
        specs = [s for _, s in gen.leaf_specs(self.c["ins"])]
        tr = leaves(self.x_train)
        r = np.random.default_rng([self.c["seed"], salt])
        order = {p: i for i, (p, _) in enumerate(gen.leaf_specs(self.c["ins"]))}
        ls = leaves(x)
        return gen.build(self.c["ins"], lambda t, p: (
            tr[order[p]][r.integers(len(tr[0]), size=len(ls[0]))] if specs[order[p]]["cat"] else ls[order[p]]))

    def unc(self, salt, n):
        return gen.tmap(lambda v: np.abs(v) * 0.7 + 0.1, inputs(self.c, n, salt))

    def conformal(self, alpha=None):
        return ConformalizedModel(self.model, **({} if alpha is None else {"alpha": alpha}), nn_dist_quantile=self.c["q"])

    def calibrate(self, cm, **over):
        k = self.c["seed"]
        kw = {**self.kw, "max_batch_size": self.c["bs"], "skip_sanity_checks": bool(k % 2), "verbose": k % 7 == 3, **over}
        x = kw.pop("X_cal", None)
        y = kw.pop("Y_cal", None)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            cm.calibrate(to_jax(self.x_cal) if x is None else x, to_jax(self.y_cal) if y is None else y, **kw)
        return cm

    def ref(self):
        return Ref(self.c, self.x_cal, self.y_cal, self.x_train, self.cal_unc, self.flags)


def jax_map(f, t):
    import jax

    return jax.tree.map(f, t)


def level(n, alpha):
    """Number of calibration points that have to be inside: (smallest, largest
    possible value in view of rounding)."""
    e = (n + 1) * (1 - alpha)
    r = round(e)
    if abs(e - r) < 1e-9 * (n + 1):
        return r, r + 1
    return math.ceil(e), math.ceil(e)
