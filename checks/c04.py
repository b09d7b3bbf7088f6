"""C04 tensor-contraction, bias, activation, constant and function modules."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Check, Discard, close, expect
from pbt.gen import arr, seeds, tmap
from pbt.sut import M, apply, call, check_shapes, np_tree, shapes, to_jax

CHECK = Check(
    "C04",
    "contraction patterns (indices, operands, leading arrays, output, the way "
    "the pattern is written), operand orders, PyTree structures, shapes, "
    "parameter values (given, set or random), dtypes and data are drawn; "
    "non-trivial: at least two operands (contractions), two leaves or two "
    "features with distinct parameters (bias, PReLU, constants), negative and "
    "positive values (activations)",
)
LET = "abcdefgxyzABijk"


# ------------------------------------------------------------------- einsum
def brute(terms, out, ops):
    """Contraction by explicit summation over index assignments."""
    size = {}
    for t, o in zip(terms, ops):
        for ch, n in zip(t, o.shape):
            expect(size.setdefault(ch, n) == n, "reference: inconsistent sizes")
    letters = sorted(size)
    res = np.zeros([size[ch] for ch in out], dtype=np.result_type(*ops))
    for idx in np.ndindex(*[size[ch] for ch in letters]):
        at = dict(zip(letters, idx))
        v = 1.0
        for t, o in zip(terms, ops):
            v = v * o[tuple(at[ch] for ch in t)]
        res[tuple(at[ch] for ch in out)] += v
    return res


ein_leaf = gen.leaf_of(w=st.lists(st.integers(0, 4), min_size=1, max_size=3),
                       cplx=st.sampled_from([False, False, True]))


@CHECK.sub("einsum", st.fixed_dictionaries(dict(
    tree=gen.trees(ein_leaf, max_leaves=3, keys=["b", "a", "10", "2"], depth=2),
    letters=st.permutations(list(LET)).map(lambda l: l[:5]),
    sizes=st.lists(st.sampled_from([2, 3, 1]), min_size=5, max_size=5),
    lead=st.lists(st.lists(st.integers(0, 4), min_size=1, max_size=2), max_size=2),
    out=st.one_of(st.none(), st.lists(st.integers(0, 4), unique=True, max_size=4)),
    form=st.sampled_from(["str", "tree"]),
    how=st.sampled_from(["fixed", "fixed_hyper", "trainable_given", "trainable_random",
                         "trainable_set"]),
    real=st.sampled_from([True, True, False]), b=st.sampled_from([1, 2, 3]), seed=seeds)), 420)
def einsum(c, ctx):
    let, size = c["letters"], c["sizes"]
    word = lambda w: "".join(let[i] for i in w)
    specs = gen.leaf_specs(c["tree"])
    terms = [word(s["w"]) for _, s in specs]
    lead = [word(w) for w in c["lead"]]
    used = set("".join(terms + lead))
    if c["out"] is None:
        allc = "".join(lead + terms)
        out, given_out = "".join(sorted(ch for ch in used if allc.count(ch) == 1)), False
    else:
        out, given_out = "".join(ch for ch in word(c["out"]) if ch in used), True
    sz = dict(zip(let, size))
    n = [0]

    def mk(s, path):
        n[0] += 1
        return arr(c["seed"] + n[0], (c["b"], *[size[i] for i in s["w"]]), s["cplx"])

    data = gen.build(c["tree"], mk)
    # the pattern, as written by the user
    # (documented: use the string form for bare arrays)
    if c["form"] == "str" or gen.is_leaf(c["tree"]):
        pat = ",".join(lead + terms) + ("->" + out if given_out else "")
    else:
        tree = gen.build(c["tree"], lambda s, p: word(s["w"]))
        pat = ((",".join(lead),) if lead else ()) + (tree,) + ((out,) if given_out else ())
        pat = pat if len(pat) > 1 else tree
        if pat is not tree and gen.same_struct(pat, data) and not isinstance(data, np.ndarray):
            raise Discard  # ambiguous with a pattern PyTree
    dm = {ch: sz[ch] for ch in set("".join(lead)) - set("".join(terms))}
    W = [arr(c["seed"] + 100 + i, [sz[ch] for ch in w], not c["real"]) for i, w in enumerate(lead)]
    params = None if not W else jnp.asarray(W[0]) if len(W) == 1 else tuple(jnp.asarray(w) for w in W)
    how = c["how"] if W else "none"
    if how in ("fixed", "none", "fixed_hyper"):
        m = M.Einsum(pat, params=params if how == "fixed" else None, trainable=False)
        if how == "fixed_hyper":
            m.set_hyperparameters({"params": params})
        res = apply(m, data)
    else:
        m = M.Einsum(pat, params=params if how == "trainable_given" else None,
                     dim_map=dm if how != "trainable_given" else None, trainable=True,
                     init_magnitude=0.8, real=c["real"])
        res = apply(m, data, seed=c["seed"] % 99991,
                    params=params if how == "trainable_set" else None)
        if how == "trainable_random":
            p = m.get_params()
            W = [np.asarray(p)] if len(lead) == 1 else [np.asarray(q) for q in p]
            expect([w.shape for w in W] == [tuple(sz[ch] for ch in w) for w in lead],
                   f"leading arrays have shapes {[w.shape for w in W]}")
            expect(all(np.iscomplexobj(w) != c["real"] for w in W), "real/complex parameters")
    check_shapes(m.get_output_shape(shapes(data)), res)
    leaves = [v for _, v in gen.flat(data)]
    ref = np.stack([brute(lead + terms, out, W + [v[i] for v in leaves]) for i in range(c["b"])])
    tol = 1e-4 if how == "trainable_random" else 1e-9
    close(np.asarray(res), ref, tol, tol * max(1, np.abs(ref).max(initial=0)), "contraction")
    ctx.mark(len(lead) + len(terms) >= 2)
    ctx.label(c["form"], how, f"{len(terms)}leaves", "inferred" if not given_out else "explicit")


# ------------------------------------------------------------------- matmul
@CHECK.sub("matmul", st.fixed_dictionaries(dict(
    tree=gen.trees(gen.leaf_of(), max_leaves=3, keys=["b", "a", "10", "2", "0", "x y"], depth=3),
    order=st.one_of(st.none(), st.permutations(range(4))), sep=st.sampled_from([".", "/", "__"]),
    param=st.sampled_from(["none", "fixed", "given", "random", "set"]),
    vec=st.booleans(), dims=st.lists(st.sampled_from([2, 3, 1, 4]), min_size=6, max_size=6),
    oshape=st.sampled_from(["full", "first", "last", "none"]), cplx=st.booleans(),
    b=st.sampled_from([1, 2, 3]), seed=seeds)), 420)
def matmul(c, ctx):
    specs = gen.leaf_specs(c["tree"])
    nl = len(specs)
    if gen.is_leaf(c["tree"]):
        c = {**c, "order": None}  # a bare array has no path
    haspar = c["param"] != "none"
    nop = nl + haspar
    # operand order: list of leaf numbers, -1 for the parameter
    ops = ([-1] if haspar else []) + list(range(nl))
    if c["order"] is not None:
        ops = [ops[i] for i in c["order"] if i < nop]
    dims = c["dims"]
    shp = {}
    for j, o in enumerate(ops):
        shp[o] = (dims[j],) if c["vec"] and j == nop - 1 else (dims[j], dims[j + 1])
    if nop == 1 and c["vec"]:
        c, shp = {**c, "vec": False}, {ops[0]: (dims[0], dims[1])}
    n = [0]
    num = {p: i for i, (p, _) in enumerate(specs)}
    data = gen.build(c["tree"], lambda s, p: arr(
        c["seed"] + num[p], (c["b"], *shp[num[p]]), c["cplx"] and num[p] % 2 == 0))
    if c["order"] is None:
        po = None
    else:
        po = [2 * c["sep"] if o == -1 else c["sep"].join(map(str, specs[o][0])) for o in ops]
    want = (dims[0],) + (() if c["vec"] else (dims[nop],))
    # the shape the user writes down
    first, last = ops[0] == -1, ops[-1] == -1
    os_ = c["oshape"]
    if os_ == "full":
        osh = want[0] if c["vec"] else want
    elif os_ == "first":
        osh = want[0] if c["vec"] else (want[0], None)
    elif os_ == "last":
        osh = want[0] if c["vec"] else (None, want[1])
    else:
        osh = None
    if c["param"] in ("random", "set"):
        if first and (osh is None or (isinstance(osh, tuple) and osh[0] is None)):
            osh = want[0] if c["vec"] else (want[0], None)
        if last and not c["vec"] and (osh is None or osh[1] is None):
            osh = (None, want[1])
        if first and last:
            raise Discard
    W = arr(c["seed"] + 50, shp[-1], c["cplx"]) if haspar else None
    jW = None if W is None else jnp.asarray(W)
    m = M.MatMul(params=jW if c["param"] in ("fixed", "given") else None, output_shape=osh,
                 path_order=po, trainable=c["param"] in ("given", "random", "set"),
                 init_magnitude=0.7, real=not c["cplx"], separator=c["sep"])
    res = apply(m, data, seed=c["seed"] % 99991, params=jW if c["param"] == "set" else None)
    if c["param"] == "random":
        W = np.asarray(m.get_params())
        expect(W.shape == shp[-1], f"parameter matrix has shape {W.shape}, expected {shp[-1]}")
    check_shapes(m.get_output_shape(shapes(data)), res)
    leaves = [v for _, v in gen.flat(data)]
    ref = []
    for i in range(c["b"]):
        acc = None
        for o in ops:
            x = W if o == -1 else leaves[o][i]
            acc = x if acc is None else acc @ x
        ref.append(acc)
    ref = np.stack(ref)
    tol = 1e-4 if c["param"] == "random" else 1e-9
    close(np.asarray(res), ref, tol, tol * max(1, np.abs(ref).max()), "matrix product")
    ctx.mark(nop >= 2)
    ctx.label(c["param"], "ordered" if po else "default", f"{nop}operands")


@CHECK.sub("linear", st.fixed_dictionaries(dict(
    shape=st.lists(st.sampled_from([2, 3, 1]), min_size=1, max_size=3),
    out=st.sampled_from([2, 3, 1]), bias=st.booleans(), real=st.booleans(),
    act=st.sampled_from([None, "Tanh", "PReLU"]), b=st.sampled_from([1, 2, 3]), seed=seeds)), 120)
def linear(c, ctx):
    x = arr(c["seed"], (c["b"], *c["shape"]))
    act = None if c["act"] is None else getattr(M, c["act"])()
    if c["act"] == "PReLU" and not c["real"]:
        raise Discard  # not defined for complex inputs
    m = M.LinearNN(out_features=c["out"], bias=c["bias"], activation=act, init_magnitude=0.5,
                   real=c["real"])
    x = to_jax(x)
    m.compile(c["seed"] % 997, shapes(x))
    out = np.asarray(m(x))
    check_shapes(m.get_output_shape(shapes(x)), out)
    lv = [np.asarray(v).astype(complex if not c["real"] else float)
          for _, v in gen.flat(m.get_params())]
    exp = [(c["out"], int(np.prod(c["shape"])))] + ([(c["out"],)] if c["bias"] else []) + (
        [(1,)] if c["act"] == "PReLU" else [])
    expect([v.shape for v in lv] == exp, f"parameter shapes {[v.shape for v in lv]}")
    y = np.asarray(x).reshape(c["b"], -1) @ lv[0].T
    if c["bias"]:
        y = y + lv[1]
    if c["act"] == "Tanh":
        y = np.tanh(y)
    elif c["act"] == "PReLU":
        y = np.where(y >= 0, y, lv[-1] * y)
    close(out, y, 1e-4, 1e-4, "linear layer")
    ctx.mark(np.prod(c["shape"]) > 1)
    ctx.label(str(c["act"]), "bias" if c["bias"] else "nobias")


# ------------------------------------------------------------- bias and PReLU
lf = gen.leaf_of(s=st.lists(st.sampled_from([2, 3, 1]), max_size=2))


def mktree(tree, seed, b, cplx=False, same=None, kind="normal"):
    n = [0]

    def mk(s, path):
        n[0] += 1
        return arr(seed + n[0], (b, *(same if same is not None else s["s"])), cplx, kind)

    return gen.build(tree, mk)


def allleaves(a, b, what, tol=1e-9):
    expect(gen.same_struct(np_tree(a), b), f"{what}: structure of the output differs")
    for (p, v), (_, w) in zip(gen.flat(np_tree(a)), gen.flat(b)):
        close(v, w, tol, tol, f"{what} at {p}")


@CHECK.sub("bias", st.fixed_dictionaries(dict(
    tree=gen.trees(lf, max_leaves=3, depth=2), mode=st.sampled_from(["tree", "shared", "scalar"]),
    how=st.sampled_from(["given", "random", "set"]), real=st.booleans(),
    xc=st.booleans(), b=st.sampled_from([1, 2, 3]), seed=seeds)), 240)
def bias(c, ctx):
    specs = gen.leaf_specs(c["tree"])
    same = specs[0][1]["s"] if c["mode"] == "shared" else None
    x = mktree(c["tree"], c["seed"], c["b"], c["xc"], same)
    cp = not c["real"]
    if c["mode"] == "scalar":
        B = arr(c["seed"] + 77, (1,), cp)
    elif c["mode"] == "shared":
        B = arr(c["seed"] + 77, tuple(same), cp)
    else:
        B = tmap(lambda v: arr(c["seed"] + 77 + v.size, v.shape[1:], cp), x)
    how = c["how"]
    if c["mode"] == "shared" and how == "random":
        how = "given"
    if how == "given":
        g = (complex(B[0]) if cp else float(B[0])) if c["mode"] == "scalar" else to_jax(B)
        m = M.Bias(bias=g, real=c["real"], scalar=c["mode"] == "scalar")
        out = apply(m, x)
    else:
        m = M.Bias(init_magnitude=0.9, real=c["real"], scalar=c["mode"] == "scalar")
        if c["mode"] == "shared":
            m.set_params(to_jax(B))
            out = apply(m, x)
        else:
            out = apply(m, x, seed=c["seed"] % 991, params=to_jax(B) if how == "set" else None)
        if how == "random":
            got = np_tree(m.get_params())
            expect(gen.same_struct(got, B) and [v.shape for _, v in gen.flat(got)]
                   == [v.shape for _, v in gen.flat(B)], "structure or shapes of the random bias")
            B = got
    check_shapes(m.get_output_shape(shapes(x)), out)
    ref = tmap(lambda v, w: v + w, x, B) if c["mode"] == "tree" else tmap(lambda v: v + B, x)
    allleaves(out, ref, "bias", 1e-6 if how == "random" else 1e-12)
    ctx.mark(len(specs) > 1 or any(v.size > c["b"] for _, v in gen.flat(x)))
    ctx.label(c["mode"], how)


@CHECK.sub("prelu", st.fixed_dictionaries(dict(
    tree=gen.trees(lf, max_leaves=3, depth=2), single=st.booleans(), real=st.booleans(),
    set_=st.booleans(), b=st.sampled_from([1, 2, 3]), seed=seeds)), 160)
def prelu(c, ctx):
    x = mktree(c["tree"], c["seed"], c["b"], kind="mixed")
    cp = not c["real"]
    A = (arr(c["seed"] + 7, (1,), cp),) if c["single"] else tmap(
        lambda v: arr(c["seed"] + 7 + v.size, v.shape[1:], cp), x)
    m = M.PReLU(single_parameter=c["single"], init_magnitude=0.5, real=c["real"])
    out = apply(m, x, seed=c["seed"] % 991, params=to_jax(A) if c["set_"] else None)
    if not c["set_"]:
        got = np_tree(m.get_params())
        expect(gen.same_struct(got, A) and [v.shape for _, v in gen.flat(got)]
               == [v.shape for _, v in gen.flat(A)], "structure or shapes of the random slopes")
        A = got
    f = lambda v, a: np.where(v >= 0, v, a * v)
    ref = tmap(lambda v: f(v, A[0][0]), x) if c["single"] else tmap(f, x, A)
    allleaves(out, ref, "PReLU", 1e-9 if c["set_"] else 1e-5)
    check_shapes(m.get_output_shape(shapes(x)), out)
    ctx.mark(any((v < 0).any() for _, v in gen.flat(x)))
    ctx.label("single" if c["single"] else "per-feature")


@CHECK.sub("constant", st.fixed_dictionaries(dict(
    tree=gen.trees(lf, max_leaves=3, depth=2), ctree=gen.trees(lf, max_leaves=3, depth=2),
    how=st.sampled_from(["given", "trainable_given", "random", "set", "scalar"]),
    cplx=st.booleans(), b=st.sampled_from([1, 2, 3]), seed=seeds)), 160)
def constant(c, ctx):
    x = mktree(c["tree"], c["seed"], c["b"])
    C = tmap(lambda v: v[0], mktree(c["ctree"], c["seed"] + 31, 1, c["cplx"]))
    how = c["how"]
    if how == "scalar":
        C = np.asarray(1.5 + (0.5j if c["cplx"] else 0))
        m = M.Constant(C.item())
        out = apply(m, x)
    elif how in ("given", "trainable_given"):
        m = M.Constant(to_jax(C), trainable=how != "given")
        out = apply(m, x)
    else:
        shp = tmap(lambda v: tuple(v.shape), C)
        m = M.Constant(trainable=True, shape=shp, init_magnitude=0.5, real=not c["cplx"])
        out = apply(m, x, seed=c["seed"] % 991, params=to_jax(C) if how == "set" else None)
        if how == "random":
            got = np_tree(m.get_params())
            expect(gen.same_struct(got, C) and [v.shape for _, v in gen.flat(got)]
                   == [v.shape for _, v in gen.flat(C)], "structure or shapes of the constant")
            C = got
    ref = tmap(lambda v: np.stack([v] * c["b"]), C)
    allleaves(out, ref, "constant", 0)
    check_shapes(m.get_output_shape(shapes(x)), out)
    ctx.mark(c["b"] > 1)
    ctx.label(how)


# --------------------------------------------------------------- activations
from math import erf  # noqa: E402

sig = lambda x: 1 / (1 + np.exp(-x))
sp = lambda x: np.logaddexp(x, 0)
relu6 = lambda x: np.minimum(np.maximum(x, 0), 6)
LAM, ALP = 1.0507009873554804934193349852946, 1.6732632423543772848170429916717
# name, args, kwargs, reference, domain
ACT = [
    ("ReLU", (), {}, lambda x: np.maximum(x, 0), "r"), ("ReLU6", (), {}, relu6, "r"),
    ("Sigmoid", (), {}, sig, "r"), ("Softplus", (), {}, sp, "r"),
    ("SparsePlus", (), {}, lambda x: np.where(x >= 1, x, np.where(x <= -1, 0, (x + 1) ** 2 / 4)), "r"),
    ("SparseSigmoid", (), {}, lambda x: np.clip((x + 1) / 2, 0, 1), "r"),
    ("SoftSign", (), {}, lambda x: x / (np.abs(x) + 1), "r"),
    ("SiLU", (), {}, lambda x: x * sig(x), "r"), ("Swish", (), {}, lambda x: x * sig(x), "r"),
    ("LogSigmoid", (), {}, lambda x: -sp(-x), "r"),
    ("LeakyReLU", (), {}, lambda x: np.where(x >= 0, x, 0.01 * x), "r"),
    ("LeakyReLU", (0.3,), {}, lambda x: np.where(x >= 0, x, 0.3 * x), "r"),
    ("LeakyReLU", (), {"negative_slope": 0.2}, lambda x: np.where(x >= 0, x, 0.2 * x), "r"),
    ("HardSigmoid", (), {}, lambda x: relu6(x + 3) / 6, "r"),
    ("HardSiLU", (), {}, lambda x: x * relu6(x + 3) / 6, "r"),
    ("HardSwish", (), {}, lambda x: x * relu6(x + 3) / 6, "r"),
    ("HardTanh", (), {}, lambda x: np.clip(x, -1, 1), "r"),
    ("ELU", (), {}, lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))), "r"),
    ("ELU", (0.5,), {}, lambda x: np.where(x > 0, x, 0.5 * np.expm1(np.minimum(x, 0))), "r"),
    ("CELU", (), {"alpha": 2.0}, lambda x: np.maximum(x, 0) + np.minimum(0, 2 * np.expm1(np.minimum(x, 0) / 2)), "r"),
    ("SELU", (), {}, lambda x: LAM * np.where(x > 0, x, ALP * np.expm1(np.minimum(x, 0))), "r"),
    ("GELU", (), {"approximate": False}, lambda x: x * 0.5 * (1 + np.vectorize(erf)(x / np.sqrt(2))), "r"),
    ("GELU", (), {}, lambda x: 0.5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + 0.044715 * x ** 3))), "r"),
    ("SquarePlus", (), {}, lambda x: (x + np.sqrt(x * x + 4)) / 2, "r"),
    ("Mish", (), {}, lambda x: x * np.tanh(sp(x)), "r"), ("Identity", (), {}, lambda x: x, "r"),
    ("Abs", (), {}, np.abs, "c"), ("Absolute", (), {}, np.absolute, "c"),
    ("ACos", (), {}, np.arccos, "u"), ("ACosh", (), {}, np.arccosh, "g"),
    ("Angle", (), {}, np.angle, "c"), ("ArcCos", (), {}, np.arccos, "u"),
    ("ArcCosh", (), {}, np.arccosh, "g"), ("ArcSin", (), {}, np.arcsin, "u"),
    ("ArcSinh", (), {}, np.arcsinh, "r"), ("ArcTan", (), {}, np.arctan, "r"),
    ("ArcTan2", (2.0,), {}, lambda x: np.arctan2(x, 2.0), "r"),
    ("ArcTanh", (), {}, np.arctanh, "u"), ("ASin", (), {}, np.arcsin, "u"),
    ("ASinh", (), {}, np.arcsinh, "r"), ("ATan", (), {}, np.arctan, "r"),
    ("ATanh", (), {}, np.arctanh, "u"), ("Cbrt", (), {}, np.cbrt, "r"),
    ("Ceil", (), {}, np.ceil, "r"), ("Clip", (-0.5, 0.7), {}, lambda x: np.clip(x, -0.5, 0.7), "r"),
    ("Conj", (), {}, np.conj, "c"), ("Conjugate", (), {}, np.conj, "c"),
    ("Cos", (), {}, np.cos, "r"), ("Cosh", (), {}, np.cosh, "r"),
    ("Deg2Rad", (), {}, np.deg2rad, "r"), ("Degrees", (), {}, np.degrees, "r"),
    ("Exp", (), {}, np.exp, "r"), ("Exp2", (), {}, np.exp2, "r"), ("Expm1", (), {}, np.expm1, "r"),
    ("FAbs", (), {}, np.fabs, "r"), ("FloatPower", (2.5,), {}, lambda x: x ** 2.5, "p"),
    ("Floor", (), {}, np.floor, "r"), ("FloorDivide", (0.7,), {}, lambda x: np.floor_divide(x, 0.7), "r"),
    ("I0", (), {}, np.i0, "r"), ("Imag", (), {}, np.imag, "c"), ("Log", (), {}, np.log, "p"),
    ("Log10", (), {}, np.log10, "p"), ("Log1p", (), {}, np.log1p, "p"), ("Log2", (), {}, np.log2, "p"),
    ("NaNToNum", (), {}, np.nan_to_num, "r"), ("NanToNum", (), {}, np.nan_to_num, "r"),
    ("Positive", (), {}, np.positive, "r"), ("Pow", (3,), {}, lambda x: x ** 3, "r"),
    ("Power", (2,), {}, lambda x: x ** 2, "r"), ("Rad2Deg", (), {}, np.rad2deg, "r"),
    ("Radians", (), {}, np.radians, "r"), ("Real", (), {}, np.real, "c"),
    ("Reciprocal", (), {}, lambda x: 1 / x, "p"), ("RInt", (), {}, np.rint, "r"),
    ("Round", (1,), {}, lambda x: np.round(x, 1), "r"), ("Sign", (), {}, np.sign, "r"),
    ("Sin", (), {}, np.sin, "r"), ("Sinc", (), {}, np.sinc, "r"),
    ("Sinh", (), {}, np.sinh, "r"), ("Sqrt", (), {}, np.sqrt, "p"), ("Square", (), {}, np.square, "r"),
    ("Tan", (), {}, np.tan, "u"), ("Tanh", (), {}, np.tanh, "r"), ("Trunc", (), {}, np.trunc, "r"),
    ("Softmax", (), {}, lambda x: np.exp(x) / np.exp(x).sum(-1, keepdims=True), "f"),
    ("LogSoftmax", (), {}, lambda x: x - np.log(np.exp(x).sum(-1, keepdims=True)), "f"),
    ("Standardize", (), {}, lambda x: (x - x.mean(-1, keepdims=True)) / np.sqrt(x.var(-1, keepdims=True) + 1e-5), "f"),
]
af = gen.leaf_of(s=st.lists(st.sampled_from([2, 3]), min_size=1, max_size=2))


@CHECK.sub("activations", st.fixed_dictionaries(dict(
    which=st.integers(0, len(ACT) - 1), tree=gen.trees(af, max_leaves=2, depth=1),
    b=st.sampled_from([2, 1, 3]), seed=seeds)), 400)
def activations(c, ctx):
    name, args, kw, ref, dom = ACT[c["which"]]

    def dm(x):
        if dom == "u":
            return 0.9 * np.tanh(x)
        if dom == "p":
            return np.abs(x) + 0.1
        if dom == "g":
            return np.abs(x) + 1.1
        return x

    x = tmap(dm, mktree(c["tree"], c["seed"], c["b"], dom == "c"))
    m = getattr(M, name)(*args, **kw)
    out = apply(m, x)
    allleaves(out, tmap(ref, x), name, 2e-6)
    check_shapes(m.get_output_shape(shapes(x)), out)
    ctx.mark(dom in "cfrup")
    ctx.label(name)


@CHECK.sub("exports", st.fixed_dictionaries(dict(i=st.integers(0, 400), twice=st.booleans())), 40)
def exports(c, ctx):
    """Every module that the package says it exports exists and is a module."""
    names = list(getattr(M, "__all__", [])) or [n for n in dir(M) if not n.startswith("_")]
    name = names[c["i"] % len(names)]
    expect(hasattr(M, name), f"modules.{name} is exported but does not exist")
    v = getattr(M, name)
    expect(isinstance(v, type) and issubclass(v, M.BaseModule), f"modules.{name} is not a module")
    space = {}
    exec("from parametricmatrixmodels.modules import *", space)
    expect(space[name] is v, f"import * gives another {name}")
    ctx.mark(v is not M.BaseModule)


class Affine2(M.FuncBase):
    """A user function module: PyTree in, different PyTree out."""

    def __init__(self, w=2.0, mode="pair"):
        self.w, self.mode = w, mode

    def get_hyperparameters(self):
        return {"w": self.w, "mode": self.mode}

    def f(self, data):
        import jax

        lv = jax.tree.leaves(data)
        if self.mode == "pair":
            return {"s": jnp.stack([v.reshape(v.shape[0], -1).sum(-1) for v in lv], -1) * self.w,
                    "x": data}
        if self.mode == "list":
            return [v * self.w for v in lv]
        return jnp.stack([v.reshape(v.shape[0], -1).sum(-1) for v in lv], -1) + self.w


@CHECK.sub("funcbase", st.fixed_dictionaries(dict(
    tree=gen.trees(lf, max_leaves=3, min_leaves=2, depth=2), mode=st.sampled_from(["pair", "list", "sum"]),
    b=st.sampled_from([2, 1, 3]), seed=seeds)), 60)
def funcbase(c, ctx):
    x = mktree(c["tree"], c["seed"], c["b"])
    m = Affine2(1.75, c["mode"])
    out = apply(m, x)
    lv = [v for _, v in gen.flat(x)]
    s = np.stack([v.reshape(c["b"], -1).sum(-1) for v in lv], -1)
    ref = ({"s": s * 1.75, "x": x} if c["mode"] == "pair" else [v * 1.75 for v in lv]
           if c["mode"] == "list" else s + 1.75)
    allleaves(out, ref, "function module")
    check_shapes(m.get_output_shape(shapes(x)), out)
    ctx.mark(len(lv) > 1)
