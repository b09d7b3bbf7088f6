"""C01 matrix-building modules against the documented formulas."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt.core import Check, close, expect
from pbt.gen import arr, herm, seeds, unwrap, wrap, wraps
from pbt.sut import M, apply, check_shapes, shapes

CHECK = Check(
    "C01",
    "number of features, matrix size, rank, batch size, smoothing, bias term, "
    "dtype, enclosing containers and values are drawn; non-trivial: at least "
    "two matrices of size >= 2 that do not commute (or a tensor of rank >= 2)",
)

common = dict(
    p=st.integers(1, 5), n=st.integers(1, 5), b=st.integers(1, 4),
    smoothing=st.sampled_from([None, 0.0, 1.0, 0.5, -0.3, 2.25]),
    bias=st.booleans(), cplx=st.booleans(), seed=seeds, wraps=wraps,
    kind=st.sampled_from(["normal", "mixed"]),
    f32=st.sampled_from([False, False, True]),
)


def ref_affine(Ms, x, bias, s):
    """Direct sums, no cumulative sums; pairwise commutators."""
    Ms = [np.asarray(m, complex) for m in Ms]
    Ms = [(m + m.conj().T) / 2 for m in Ms]
    out = []
    for row in x:
        terms = [Ms[0]] + [f * m for f, m in zip(row, Ms[1:])] if bias else [
            f * m for f, m in zip(row, Ms)]
        tot = sum(terms, np.zeros_like(Ms[0]))
        C = np.zeros_like(Ms[0])
        if s:
            for i in range(len(Ms)):
                for j in range(i):
                    C = C + 1j * (Ms[i] @ Ms[j] - Ms[j] @ Ms[i])
            tot = tot + s * C
        out.append(tot)
    return np.array(out)


def judge(case, out, ref, x, ctx, real_in):
    out = np.asarray(unwrap(out, case["wraps"]))
    tol = 3e-4 if case["f32"] else 1e-9
    sc = max(1.0, float(np.abs(ref).max()))
    close(out, ref, rtol=tol, atol=tol * sc, what="M(x)")
    h = np.conj(np.swapaxes(out, -1, -2))
    expect(np.abs(out - h).max() <= 1e-5 * sc if case["f32"]
           else np.abs(out - h).max() <= 1e-12 * sc,
           "M(x) is not Hermitian")
    if real_in and not case["smoothing"]:
        expect(np.isrealobj(out), "real matrices and features give complex M(x)")


@CHECK.sub("affine", st.fixed_dictionaries(
    {**common, "how": st.sampled_from(["init", "set", "set_nearherm"])}), 400)
def affine(c, ctx):
    p, n = c["p"], c["n"]
    k = p + 1 if c["bias"] else p
    x = arr(c["seed"], (c["b"], p), kind=c["kind"])
    Ms = herm(c["seed"] + 1, (k, n, n), c["cplx"])
    if c["how"] == "set_nearherm":  # Hermitian up to rounding of their source
        Ms = Ms + 2e-9 * arr(c["seed"] + 2, (k, n, n), c["cplx"])
    if c["f32"]:
        Ms = Ms.astype(np.complex64 if c["cplx"] else np.float32)
    data = wrap(x, c["wraps"])
    if c["how"] == "init":
        m = M.AffineHermitianMatrix(smoothing=c["smoothing"], bias_term=c["bias"],
                                    Ms=jnp.asarray(Ms))
        out = apply(m, data)
    else:
        m = M.AffineHermitianMatrix(matrix_size=n, smoothing=c["smoothing"],
                                    bias_term=c["bias"])
        out = apply(m, data, params=jnp.asarray(Ms))
    check_shapes(m.get_output_shape(shapes(wrap(jnp.asarray(x), c["wraps"]))), out)
    ref = ref_affine(Ms, x, c["bias"], c["smoothing"])
    judge(c, out, ref, x, ctx, not c["cplx"])
    ctx.mark(n >= 2 and k >= 2)
    ctx.label("smoothed" if c["smoothing"] else "plain",
              "bias" if c["bias"] else "nobias", f"k={k}")


@CHECK.sub("affine_random", st.fixed_dictionaries(
    {**common, "rank": st.integers(0, 3)}), 160)
def affine_random(c, ctx):
    """Randomly initialised modules obey the formula for the parameters they
    report, full-rank and low-rank."""
    p, n = c["p"], c["n"]
    x = arr(c["seed"], (c["b"], p), kind=c["kind"])
    data = wrap(x, c["wraps"])
    kw = dict(matrix_size=n, smoothing=c["smoothing"], bias_term=c["bias"],
              init_magnitude=0.7)
    k = p + 1 if c["bias"] else p
    rank = min(c["rank"], n)
    if rank == 0:
        m = M.AffineHermitianMatrix(**kw)
        out = apply(m, data, seed=c["seed"] % 1000)
        Ms = np.asarray(m.get_params())
    else:
        m = M.LowRankAffineHermitianMatrix(matrix_rank=rank, **kw)
        out = apply(m, data, seed=c["seed"] % 1000)
        ls, us = (np.asarray(q) for q in m.get_params())
        Ms = np.array([sum(ls[i, r] * np.outer(us[i, :, r], us[i, :, r].conj())
                           for r in range(rank)) for i in range(k)])
    expect(Ms.shape == (k, n, n), f"{Ms.shape[0]} matrices for {p} features")
    expect(np.abs(Ms - np.conj(np.swapaxes(Ms, 1, 2))).max() < 1e-5,
           "initial matrices are not Hermitian")
    c2 = dict(c, f32=True)
    judge(c2, out, ref_affine(Ms, x, c["bias"], c["smoothing"]), x, ctx, False)
    ctx.mark(n >= 2 and k >= 2)
    ctx.label(f"rank={rank}")


@CHECK.sub("lowrank", st.fixed_dictionaries(
    {**common, "rank": st.integers(1, 4),
     "how": st.sampled_from(["init", "set"])}), 300)
def lowrank(c, ctx):
    p, n = c["p"], c["n"]
    r = min(c["rank"], n)
    k = p + 1 if c["bias"] else p
    x = arr(c["seed"], (c["b"], p), kind=c["kind"])
    us = arr(c["seed"] + 1, (k, n, r), c["cplx"])
    ls = arr(c["seed"] + 2, (k, r))
    if c["f32"]:
        us = us.astype(np.complex64 if c["cplx"] else np.float32)
        ls = ls.astype(np.float32)
    kw = dict(matrix_size=n, matrix_rank=r, smoothing=c["smoothing"],
              bias_term=c["bias"])
    data = wrap(x, c["wraps"])
    m = M.LowRankAffineHermitianMatrix(**kw)
    prm = (jnp.asarray(ls), jnp.asarray(us))
    if c["how"] == "init":  # parameters known before compilation
        m.set_params(prm)
        out = apply(m, data)
    else:
        out = apply(m, data, params=prm)
    check_shapes(m.get_output_shape(shapes(wrap(jnp.asarray(x), c["wraps"]))), out)
    Ms = np.zeros((k, n, n), complex)
    for i in range(k):
        for q in range(r):
            Ms[i] += ls[i, q] * np.outer(us[i, :, q], us[i, :, q].conj())
    judge(c, out, ref_affine(Ms, x, c["bias"], c["smoothing"]), x, ctx, not c["cplx"])
    ctx.mark(n >= 2 and k >= 2)
    ctx.label("smoothed" if c["smoothing"] else "plain", f"r={r}", f"k={k}")


@CHECK.sub("tensor", st.fixed_dictionaries(dict(
    p=st.integers(1, 5), b=st.integers(1, 4), bias=st.booleans(),
    shape=st.lists(st.integers(1, 4), min_size=1, max_size=4),
    cplx=st.booleans(), xc=st.booleans(), seed=seeds, wraps=wraps,
    how=st.sampled_from(["init", "set", "random"]))), 220)
def tensor(c, ctx):
    p, shp = c["p"], tuple(c["shape"])
    k = p + 1 if c["bias"] else p
    x = arr(c["seed"], (c["b"], p), c["xc"], kind="mixed")
    Ms = arr(c["seed"] + 1, (k,) + shp, c["cplx"])
    data = wrap(x, c["wraps"])
    if c["how"] == "init":
        m = M.AffineTensor(Ms=jnp.asarray(Ms), bias_term=c["bias"], real=not c["cplx"])
        out = apply(m, data)
    else:
        m = M.AffineTensor(tensor_shape=shp, bias_term=c["bias"], real=not c["cplx"],
                           init_magnitude=0.8)
        out = apply(m, data, seed=c["seed"] % 997,
                    params=jnp.asarray(Ms) if c["how"] == "set" else None)
    Ms = np.asarray(m.get_params())
    check_shapes(m.get_output_shape(shapes(wrap(jnp.asarray(x), c["wraps"]))), out)
    ref = []
    for row in x:
        t = np.zeros(shp, complex)
        if c["bias"]:
            t = t + Ms[0]
        for f, mm in zip(row, Ms[1:] if c["bias"] else Ms):
            t = t + f * mm
        ref.append(t)
    close(unwrap(out, c["wraps"]), np.array(ref), 1e-5 if c["how"] == "random" else 1e-9,
          1e-4 if c["how"] == "random" else 1e-8, "M(x)")
    ctx.mark(len(shp) >= 2 and k >= 2)
    ctx.label(c["how"], f"rank={len(shp)}")
