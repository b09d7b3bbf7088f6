"""Every kind of module with its options: descriptors (plain JSON) of a bare
module and of data it accepts."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from . import gen
from . import usermods as U
from .gen import arr
from .models import leaf
from .sut import M

WHICH = ["SA", "LA", "SM", "LM", "EA", "IA", "EM", "IM"]
SEP = [".", "/", "::"]
dim = st.sampled_from([2, 3, 1, 4])
small = st.sampled_from([2, 3, 1])
mag = st.sampled_from([0.7, 0.3])
vec = dim.map(lambda n: leaf([n]))
herm = st.sampled_from([3, 2, 4]).map(lambda n: leaf([n, n], "h"))
rtree = gen.trees(gen.leaf_of(s=st.lists(small, min_size=1, max_size=2), k=st.just("r")), max_leaves=3, depth=2,
                  keys=["b", "a", "10", "2"])
rcont = gen.trees(gen.leaf_of(s=st.lists(small, min_size=1, max_size=2), k=st.just("r")), max_leaves=4, min_leaves=2,
                  depth=2, keys=["b", "a", "10", "2"], allow_leaf=False)
def cont(shape):
    return gen.trees(gen.leaf_of(s=shape, k=st.just("r")), max_leaves=4, min_leaves=2, depth=2, keys=["b", "a", "10", "2"],
                     allow_leaf=False)


sq = cont(st.just([2, 2]))
flat1 = cont(small.map(lambda n: [n]))


def row(kind, **kw):
    return st.fixed_dictionaries(kw).map(lambda d: {"m": kind, **d})


def _pair(ins, mod):
    return st.fixed_dictionaries({"in": ins, "d": mod, "seed": st.integers(0, 9999)})


B = st.booleans()
smooth = st.sampled_from([None, 0.5, 0.0, 1.25])
ACT = [["ReLU"], ["LeakyReLU", 0.3], ["Tanh"], ["Clip", -0.5, 0.7], ["Power", 3], ["Softmax"], ["Softplus"], ["CELU", 0.7], ["ELU", 0.4],
       ["Exp"], ["Square"], ["Sigmoid"], ["GELU", False], ["Identity"], ["LogSoftmax"], ["Round", 1], ["Sin"], ["SELU"], ["Standardize"],
       ["Abs"], ["Softmax", {"axis": -1}], ["Clip", {"min": 0.0, "max": 0.5}], ["LeakyReLU", {"negative_slope": 0.2}],
       ["SquarePlus", {"b": 2.0}], ["NanToNum", {"nan": 1.0}]]

single = st.one_of(
    _pair(vec, row("affine", n=dim, smooth=smooth, bias=B, mag=mag, give=B)),
    _pair(vec, row("lowrank", n=dim, r=st.sampled_from([1, 2]), smooth=smooth, bias=B, mag=mag)),
    _pair(vec, row("tensor", shape=st.lists(small, min_size=1, max_size=3), bias=B, real=B, mag=mag)),
    _pair(vec, row("eigpmm", n=dim, k=st.sampled_from([1, 2]), which=st.sampled_from(WHICH), smooth=smooth, bias=B, mag=mag, give=B)),
    _pair(vec, row("obspmm", n=dim, k=st.sampled_from([1, 2]), which=st.sampled_from(["SA", "LA"]), smooth=smooth, bias=B, abias=B,
                   l=st.sampled_from([1, 2]), q=small, centered=B, ev=B, mag=mag, give=B)),
    _pair(rtree, row("bias", scalar=B, real=B, trainable=B, mag=mag, value=st.sampled_from([None, None, 0.75]))),
    _pair(rtree, row("prelu", single=B, mag=mag)),
    _pair(vec, row("constant", trainable=B, shape=st.lists(small, min_size=1, max_size=2), how=st.sampled_from(["array", "tree", "shape"]), mag=mag)),
    _pair(vec, row("linear", o=small, bias=B, act=st.sampled_from([None, ["Tanh"], ["LeakyReLU", 0.3], ["Clip", {"min": 0.0, "max": 0.5}]]), mag=mag)),
    _pair(vec, row("matmul", o=small, trainable=B, mag=mag)),
    _pair(sq, row("matmul2", sep=st.sampled_from(SEP), rev=B)),
    _pair(vec, row("einsum", o=small, trainable=B, given=B, mag=mag)),
    _pair(flat1, row("concat", sep=st.sampled_from(SEP), axis=st.sampled_from([None, None, -1]), rev=B)),
    _pair(rcont, row("treekey", sep=st.sampled_from(SEP), form=st.sampled_from(["list", "dict", "one", "nested"]))),
    _pair(rcont, row("treeflatten")),
    _pair(rtree, row("flatten")),
    _pair(rtree, row("comment", text=st.sampled_from(["hello", "a, b.c"]))),
    _pair(vec, row("reshape", form=st.sampled_from(["full", "infer"]))),
    _pair(rcont, row("reshape2")),
    _pair(herm, row("eig", cls=st.sampled_from(["Eigenvalues", "Eigenvectors", "Eigensystem"]), k=st.sampled_from([1, 2, None]),
                    which=st.sampled_from(WHICH))),
    _pair(st.sampled_from([2, 3, 4]).map(lambda n: leaf([n, 2], "v")),
          row("obs", cls=st.sampled_from(["ExpectationValueSum", "TransitionAmplitudeSum"]), l=st.sampled_from([1, 2]), q=small,
              centered=B, mag=mag)),
    _pair(rtree, row("act", a=st.sampled_from(ACT))),
    _pair(rtree, row("act", a=st.sampled_from(ACT))),
    _pair(st.just(leaf([1])), row("onehot", n=st.sampled_from([2, 3, 5]))),
    _pair(rtree, row("scale")),
    _pair(rtree, row("counter")),
)


def opt(**kw):
    return {k: v for k, v in kw.items() if v is not None}


def act(a):
    kw = a[-1] if len(a) > 1 and isinstance(a[-1], dict) else {}
    args = [x for x in a[1:] if not isinstance(x, dict)]
    return getattr(M, a[0])(*args, **kw)


def paths(t, sep):
    return [sep.join(str(k) for k in p) for p, _ in gen.leaf_specs(t)]


def data(c, n, dtype=None):
    """Input data with a batch axis."""
    t, seed = c["in"], c["seed"]
    i = [0]

    def mk(s, p):
        i[0] += 1
        sh = tuple(s["s"])
        if s.get("k") == "h":
            return gen.herm(seed + i[0], (n, *sh))
        if s.get("k") == "v":
            return np.linalg.qr(arr(seed + i[0], (n, *sh), True))[0]
        if c["d"]["m"] == "onehot":
            return np.random.default_rng(seed).integers(0, c["d"]["n"], size=(n, *sh)).astype(float)
        return arr(seed + i[0], (n, *sh))

    return gen.build(t, mk)


def shape(c):
    return gen.build(c["in"], lambda s, p: tuple(s["s"]))


def make(c):
    d, t, s = c["d"], c["in"], c["seed"]
    m = d["m"]
    im = dict(init_magnitude=d["mag"]) if "mag" in d else {}
    if m == "affine":
        kw = opt(matrix_size=d["n"], smoothing=d["smooth"])
        if d["give"]:
            return M.AffineHermitianMatrix(
                Ms=jnp.asarray(gen.herm(s, (t["s"][0] + d["bias"], d["n"], d["n"]))), bias_term=d["bias"],
                **opt(smoothing=d["smooth"]))
        return M.AffineHermitianMatrix(bias_term=d["bias"], **kw, **im)
    if m == "lowrank":
        return M.LowRankAffineHermitianMatrix(matrix_size=d["n"], matrix_rank=min(d["r"], d["n"]), bias_term=d["bias"],
                                              **opt(smoothing=d["smooth"]), **im)
    if m == "tensor":
        return M.AffineTensor(tensor_shape=tuple(d["shape"]), bias_term=d["bias"], real=d["real"], **im)
    if m in ("eigpmm", "obspmm") and d["give"]:
        n = d["n"]
        p = t["s"][0]
        given = dict(Ms=jnp.asarray(gen.herm(s, (p + (d["bias"] if m == "eigpmm" else d["abias"]), n, n))))
        if m == "obspmm":
            given["Ds"] = jnp.asarray(gen.herm(s + 1, (d["q"], d["l"], n, n)))
            if d["bias"]:
                given["b"] = jnp.asarray(arr(s + 2, (d["q"],)))
        im = {**im, **given}
    if m == "eigpmm":
        return M.AffineEigenvaluePMM(matrix_size=d["n"], num_eig=min(d["k"], d["n"]), which=d["which"], bias_term=d["bias"],
                                     **opt(smoothing=d["smooth"]), **im)
    if m == "obspmm":
        return M.AffineObservablePMM(matrix_size=d["n"], num_eig=min(d["k"], d["n"]), which=d["which"], affine_bias_matrix=d["abias"],
                                     num_secondaries=d["l"], output_size=d["q"], centered=d["centered"], bias_term=d["bias"],
                                     use_expectation_values=d["ev"], **opt(smoothing=d["smooth"]), **im)
    if m == "bias":
        if d["value"] is not None:
            return M.Bias(bias=d["value"], scalar=True, trainable=d["trainable"])
        return M.Bias(scalar=d["scalar"], real=d["real"], trainable=d["trainable"], **im)
    if m == "prelu":
        return M.PReLU(single_parameter=d["single"], **im)
    if m == "constant":
        if d["how"] == "shape":
            return M.Constant(shape=tuple(d["shape"]), trainable=True, **im)
        a = jnp.asarray(arr(s, d["shape"]))
        return M.Constant(constant=a if d["how"] == "array" else {"x": a, "y": [a * 2]}, trainable=d["trainable"])
    if m == "linear":
        return M.LinearNN(out_features=d["o"], bias=d["bias"], activation=None if d["act"] is None else act(d["act"]), **im)
    if m == "matmul":
        if d["trainable"]:
            return M.MatMul(output_shape=d["o"], trainable=True, **im)
        return M.MatMul(params=jnp.asarray(arr(s, (d["o"], t["s"][0]))), trainable=False)
    if m == "matmul2":
        return M.MatMul(path_order=order(d, t), separator=d["sep"])
    if m == "einsum":
        o, i = d["o"], t["s"][0]
        if d["given"] or not d["trainable"]:
            return M.Einsum("oi,i->o", params=jnp.asarray(arr(s, (o, i))), trainable=d["trainable"])
        return M.Einsum("oi,i->o", dim_map={"o": o}, trainable=True, **im)
    if m == "concat":
        return M.ConcatenateLeaves(axis=d["axis"], path_order=order(d, t), separator=d["sep"])
    if m == "treekey":
        ps = paths(t, d["sep"])
        if d["form"] == "list":
            return M.TreeKey(ps[::-1], separator=d["sep"])
        if d["form"] == "dict":
            return M.TreeKey({"k%d" % i: p for i, p in enumerate(ps)}, separator=d["sep"])
        if d["form"] == "nested":
            return M.TreeKey({"q": ps[1:], "z": (ps[0],)}, separator=d["sep"])
        return M.TreeKey(ps[-1], separator=d["sep"])
    if m == "treeflatten":
        return M.TreeFlatten()
    if m == "flatten":
        return M.Flatten()
    if m == "comment":
        return M.Comment(d["text"])
    if m == "reshape":
        return M.Reshape((t["s"][0], 1) if d["form"] == "full" else (1, -1))
    if m == "reshape2":
        return M.Reshape(gen.build(t, lambda q, p: (int(np.prod(q["s"])), 1)))
    if m == "eig":
        return getattr(M, d["cls"])(num_eig=d["k"], which=d["which"])
    if m == "obs":
        return getattr(M, d["cls"])(num_observables=d["l"], output_size=d["q"], centered=d["centered"], **im)
    if m == "act":
        return act(d["a"])
    if m == "onehot":
        return M.OneHot(d["n"])
    if m == "scale":
        return U.Scale(0.5 + (s % 7) / 5, (s % 5) / 20)
    if m == "counter":
        return U.Counter(0.5)
    raise KeyError(m)


def order(d, t):
    ps = paths(t, d["sep"])
    return ps[::-1] if d["rev"] else None


modules = single
