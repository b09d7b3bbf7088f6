"""Random models: a pipeline of module descriptors that fit together, put into
a random container and possibly into sub-models. Descriptors are plain JSON.
Shapes are inferred here, independently of the code under test."""
import jax
import numpy as np
from hypothesis import strategies as st

from . import gen
from . import usermods as U
from .gen import arr
from .sut import M, pmm

# A shape is a spec: {"t": "leaf", "s": [..], "k": kind} or a container of
# them. kinds: "r" real, "h" Hermitian matrix, "v" eigenvector columns,
# "d" Hermitian with a degenerate spectrum (its eigenvectors are not unique)
HERM = {"h", "d"}


def leaf(s, k="r"):
    return {"t": "leaf", "s": list(s), "k": k}


def spec_shape(t):
    return gen.build(t, lambda s, p: tuple(s["s"]))


def kinds(t):
    return [s["k"] for _, s in gen.leaf_specs(t)]


def options(t):
    """Names of the modules applicable to data of spec t."""
    out = []
    ks = kinds(t)
    real = all(k == "r" for k in ks)
    specs = [s for _, s in gen.leaf_specs(t)]
    if gen.is_leaf(t):
        s, k = t["s"], t["k"]
        if k == "r" and len(s) == 1:
            out += ["affine", "affine", "lowrank", "linear", "matmul", "einsum", "eigpmm",
                    "obspmm", "reshape", "tensor"]
        if k == "h":
            out += ["eigvals", "eigvals", "eigsys", "eigvecs"]
        if k == "d":
            out += ["eigvals"]
        if k == "v":
            out += ["exp", "tra"]
        if k == "r" and len(s) > 1:
            out += ["flatten"]
    else:
        if not set(ks) & {"h", "d", "v"} and all(len(s["s"]) for s in specs):
            out += ["concat", "concat"]
        if len(t["c"]) > 1 or not gen.is_leaf(t["c"][0]):
            out += ["key"]
        out += ["treeflatten"]
        if set(ks) <= HERM:
            out += ["eigvals"]
    if not set(ks) & {"h", "d", "v"}:
        out += ["bias", "comment"]
    if real:
        out += ["tanh", "sigmoid", "prelu", "scale", "softplus"]
    return out


@st.composite
def step(draw, t, extra=()):
    """A module descriptor for data of spec t and the spec of its output."""
    names = options(t) + [e for e in extra if all(k == "r" for k in kinds(t))]
    m = draw(st.sampled_from(names))
    d = {"m": m, "seed": draw(st.integers(0, 9999))}
    small = st.sampled_from([2, 3, 1])
    size = st.sampled_from([2, 3, 4])
    out = t
    if m in ("affine", "lowrank"):
        d.update(n=draw(size), bias=draw(st.booleans()), smooth=draw(st.sampled_from([0.0, 0.5])))
        if m == "lowrank":
            d["rank"] = draw(st.sampled_from([1, 2]))
        out = leaf([d["n"], d["n"]], "h" if m == "affine" else "d")
    elif m == "tensor":
        d.update(shape=draw(st.lists(small, min_size=1, max_size=2)), bias=draw(st.booleans()))
        out = leaf(d["shape"])
    elif m in ("linear", "matmul", "einsum"):
        d.update(o=draw(small))
        if m == "linear":
            d["act"] = draw(st.booleans())
        out = leaf([d["o"]])
    elif m == "eigpmm":
        d.update(n=draw(size), k=draw(st.sampled_from([1, 2])))
        out = leaf([d["k"]])
    elif m == "obspmm":
        d.update(n=draw(size), k=draw(st.sampled_from([1, 2])), q=draw(small))
        out = leaf([d["q"]])
    elif m == "eigvals":
        n = min(s["s"][0] for _, s in gen.leaf_specs(t))
        d.update(k=draw(st.sampled_from([1, 2, None])), which=draw(st.sampled_from(["SA", "LA", "EA", "IA"])))
        if d["k"] is not None:
            d["k"] = min(d["k"], n)
        out = _map(t, lambda s: leaf([d["k"] or s["s"][0]]))
    elif m in ("eigvecs", "eigsys"):
        n = t["s"][0]
        d.update(k=min(draw(st.sampled_from([1, 2])), n))
        v = leaf([n, d["k"]], "v")
        out = v if m == "eigvecs" else {
            "t": "dict", "k": ["eigenvalues", "eigenvectors"], "c": [leaf([d["k"]]), v]}
    elif m in ("exp", "tra"):
        d.update(q=draw(small), l=draw(st.sampled_from([1, 2])))
        out = leaf([d["q"]])
    elif m == "reshape":
        n = t["s"][0]
        f = draw(st.sampled_from([k for k in range(1, n + 1) if n % k == 0]))
        d.update(shape=[f, n // f])
        out = leaf([f, n // f])
    elif m == "flatten":
        out = leaf([int(np.prod(t["s"]))])
    elif m == "concat":
        out = leaf([sum(int(np.prod(s["s"])) for _, s in gen.leaf_specs(t))])
    elif m == "treeflatten":
        out = {"t": "list", "c": [s for _, s in gen.leaf_specs(t)]}
    elif m == "key":
        ks = list(t["k"]) if t["t"] == "dict" else list(range(len(t["c"])))
        if draw(st.booleans()):
            i = draw(st.integers(0, len(ks) - 1))
            d.update(paths=str(ks[i]))
            out = t["c"][i]
        else:
            perm = draw(st.permutations(range(len(ks))))
            if any(set(kinds(t["c"][i])) - {"r"} for i in perm):
                d.update(paths=[str(ks[i]) for i in perm])
                out = {"t": "list", "c": [t["c"][i] for i in perm]}
            else:
                d.update(paths={f"p{j}": str(ks[i]) for j, i in enumerate(perm)})
                out = {"t": "dict", "k": [f"p{j}" for j in range(len(perm))],
                       "c": [t["c"][i] for i in perm]}
    elif m == "bias":
        d.update(scalar=draw(st.booleans()))
    elif m == "prelu":
        d.update(single=draw(st.booleans()))
    elif m == "noise":
        d.update(only=draw(st.booleans()))
    elif m == "counter":
        d.update(w=draw(st.sampled_from([0.5, 0.0])))
    return d, out


def _map(t, f):
    if gen.is_leaf(t):
        return f(t)
    return {**t, "c": [_map(c, f) for c in t["c"]]}


def make(d):
    """The module of a descriptor."""
    m, s = d["m"], d["seed"]
    mag = 0.6
    if m == "affine":
        return M.AffineHermitianMatrix(matrix_size=d["n"], bias_term=d["bias"],
                                       smoothing=d["smooth"], init_magnitude=mag)
    if m == "lowrank":
        return M.LowRankAffineHermitianMatrix(
            matrix_size=d["n"], matrix_rank=min(d["rank"], d["n"]), bias_term=d["bias"],
            smoothing=d["smooth"], init_magnitude=mag)
    if m == "tensor":
        return M.AffineTensor(tensor_shape=tuple(d["shape"]), bias_term=d["bias"], init_magnitude=mag)
    if m == "linear":
        return M.LinearNN(out_features=d["o"], init_magnitude=mag,
                          activation=M.Tanh() if d["act"] else None)
    if m == "matmul":
        return M.MatMul(output_shape=d["o"], trainable=True, init_magnitude=mag)
    if m == "einsum":
        return M.Einsum("oi,i->o", dim_map={"o": d["o"]}, trainable=True, init_magnitude=mag)
    if m == "eigpmm":
        return M.AffineEigenvaluePMM(matrix_size=d["n"], num_eig=d["k"], which="SA", init_magnitude=mag)
    if m == "obspmm":
        return M.AffineObservablePMM(matrix_size=d["n"], num_eig=d["k"], which="SA",
                                     output_size=d["q"], init_magnitude=mag)
    if m == "eigvals":
        return M.Eigenvalues(num_eig=d["k"], which=d["which"])
    if m == "eigvecs":
        return M.Eigenvectors(num_eig=d["k"], which="SA")
    if m == "eigsys":
        return M.Eigensystem(num_eig=d["k"], which="SA")
    if m == "exp":
        return M.ExpectationValueSum(num_observables=d["l"], output_size=d["q"], init_magnitude=mag)
    if m == "tra":
        return M.TransitionAmplitudeSum(num_observables=d["l"], output_size=d["q"], init_magnitude=mag)
    if m == "reshape":
        return M.Reshape(tuple(d["shape"]))
    if m == "flatten":
        return M.Flatten()
    if m == "concat":
        return M.ConcatenateLeaves()
    if m == "treeflatten":
        return M.TreeFlatten()
    if m == "key":
        return M.TreeKey(d["paths"])
    if m == "bias":
        return M.Bias(scalar=d["scalar"], init_magnitude=mag)
    if m == "prelu":
        return M.PReLU(single_parameter=d["single"])
    if m == "comment":
        return M.Comment("c%d" % s)
    if m == "tanh":
        return M.Tanh()
    if m == "sigmoid":
        return M.Sigmoid()
    if m == "softplus":
        return M.Softplus()
    if m == "scale":
        return U.Scale(0.5 + (s % 7) / 5, (s % 5) / 20)
    if m == "noise":
        return U.Noise(0.3, d["only"])
    if m == "counter":
        return U.Counter(d["w"])
    if m == "shift":
        return U.TrainShift()
    raise KeyError(m)


@st.composite
def pipelines(draw, lo=1, hi=4, extra=(), tree=None, real_out=True, bare_out=False):
    """{"in": spec, "mods": [descriptors], "out": spec}: real input, and (if
    real_out) an output that is real and independent of the phase freedom of
    eigenvectors."""
    t = draw(tree) if tree is not None else draw(in_trees)
    t = _map(t, lambda s: leaf(s["s"], "r"))
    first = t
    mods = []
    n = draw(st.integers(lo, hi))
    for _ in range(n):
        d, t = draw(step(t, extra))
        mods.append(d)
    while True:
        ks = set(kinds(t))
        if real_out and ks != {"r"}:
            if gen.is_leaf(t):
                nm = {"h": "eigvals", "d": "eigvals", "v": "exp"}[t["k"]]
                d = {"m": nm, "seed": 1, **({"k": 1, "which": "SA"} if nm == "eigvals" else {"q": 2, "l": 1})}
                t = leaf([1] if nm == "eigvals" else [2])
            else:
                bad = [i for i, c in enumerate(t["c"]) if set(kinds(c)) != {"r"}]
                k = t["k"][bad[0]] if t["t"] == "dict" else bad[0]
                d = {"m": "key", "seed": 1, "paths": str(k)}
                t = t["c"][bad[0]]
            mods.append(d)
        elif bare_out and not gen.is_leaf(t):
            mods.append({"m": "concat", "seed": 1})
            t = leaf([sum(int(np.prod(s["s"])) for _, s in gen.leaf_specs(t))])
        elif bare_out and len(t["s"]) != 1:
            mods.append({"m": "flatten", "seed": 1})
            t = leaf([int(np.prod(t["s"]))])
        else:
            break
    return {"in": first, "mods": mods, "out": t}


def in_leaf(max_ndim=2):
    return gen.leaf_of(s=st.lists(st.sampled_from([2, 3, 1, 4]), min_size=1, max_size=max_ndim))


bare = st.sampled_from([2, 3, 1, 4]).map(lambda n: leaf([n]))
in_trees = st.one_of(bare, bare, gen.trees(in_leaf(), max_leaves=3, depth=2, keys=["a", "b", "10", "2"]))


def data(t, seed, b, dtype=None):
    n = [0]

    def mk(s, p):
        n[0] += 1
        return arr(seed + n[0], (b, *s["s"]), dtype=dtype)

    return gen.build(t, mk)


# ------------------------------------------------------------- containers
def boxes(max_depth=2):
    """How the modules of a pipeline are stored: container kind, and how they
    are cut into nested groups (containers or sub-models)."""
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(["list", "dict", "tuple"]),
        cuts=st.lists(st.integers(1, 3), max_size=3),
        sub=st.lists(st.sampled_from(["flat", "list", "tuple", "dict", "model", "flat"]),
                     min_size=1, max_size=4),
    ))


SORTED = ["a0", "a1", "b", "c", "d0", "d1", "e", "f", "g", "h", "i", "j", "k"]


def container(kind, items):
    if kind == "list":
        return list(items)
    if kind == "tuple":
        return tuple(items)
    # keys whose sorted order is the intended order, inserted in another order
    ks = SORTED[:len(items)]
    pairs = list(zip(ks, items))
    return dict(pairs[1::2] + pairs[0::2])


def arrange(mods, box):
    """The PyTree of modules; flattening it gives mods in order (sub-models
    count as one module)."""
    groups, i, gi = [], 0, 0
    cuts = list(box["cuts"])
    while i < len(mods):
        n = cuts[gi] if gi < len(cuts) else 1
        part = mods[i:i + n]
        how = box["sub"][gi % len(box["sub"])] if gi < len(cuts) else "flat"
        if how == "flat":
            groups += part
        elif how == "model":
            groups.append(pmm.SequentialModel(container("list", part)))
        else:
            groups.append(container(how, part))
        i += n
        gi += 1
    return container(box["kind"], groups)


def model(net, box=None, seed=0):
    """(compiled model, its modules in order of application)."""
    mods = [make(d) for d in net["mods"]]
    m = pmm.SequentialModel(arrange(mods, box) if box else mods)
    m.compile(seed, spec_shape(net["in"]))
    widen(m)
    return m, mods


def widen(m):
    """Double-precision parameters: the oracles then agree to ~1e-12 however
    the evaluation is compiled."""
    m.set_params(jax.tree.map(
        lambda p: p.astype(np.complex128 if np.iscomplexobj(p) else np.float64), m.get_params()))


def spec_shape_leaf(t):
    """The containers of a spec around zeros."""
    return gen.build(t, lambda s, p: 0)
