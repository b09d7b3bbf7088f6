"""C02 eigenvalue / eigenvector / eigensystem modules."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Check, close, expect, fail
from pbt.gen import arr, seeds
from pbt.sut import M, apply, check_shapes, pmm, shapes, to_jax

CHECK = Check(
    "C02",
    "spectra (well separated, degenerate, sign-symmetric), eigenbases, number "
    "of eigenpairs, selection rule, PyTree of matrices of different sizes, "
    "batch and dtype are drawn; non-trivial: a matrix of size >= 3 from which "
    "a proper subset is selected",
)
WHICH = ["SA", "LA", "SM", "LM", "EA", "EM", "IA", "IM"]


def spectrum(r, n, kind):
    if kind == "generic":
        e = r.standard_normal(n) * 3
    elif kind == "positive":
        e = np.abs(r.standard_normal(n)) + 0.1
    elif kind == "degenerate":
        e = r.integers(-2, 3, n).astype(float)
    elif kind == "symmetric":
        h = np.abs(r.standard_normal((n + 1) // 2)) + 0.2
        e = np.concatenate([h, -h])[:n]
    else:  # tiny gaps on a large offset
        e = 50 + 0.01 * r.standard_normal(n)
    return e


def matrix(seed, n, kind, cplx):
    r = np.random.Generator(np.random.PCG64(seed))
    e = spectrum(r, n, kind)
    q = r.standard_normal((n, n))
    if cplx:
        q = q + 1j * r.standard_normal((n, n))
    q, _ = np.linalg.qr(q)
    h = (q * e) @ q.conj().T
    return (h + h.conj().T) / 2


def select(e, k, which):
    """Reference selection by counting, returns eigenvalues in the documented
    (ascending by value or by magnitude) order."""
    key = (lambda v: v) if which[1].lower() == "a" else abs
    s = sorted((float(v) for v in e), key=key)
    n = len(s)
    k = n if k is None else k
    w = which[0].lower()
    if w == "s":
        return s[:k]
    if w == "l":
        return s[n - k:]
    if w == "e":
        lo = k // 2
        return s[:lo] + s[n - (k - lo):]
    lo = n // 2 - k // 2
    return s[lo:lo + k]


def judge_values(out, mats, k, which, tol):
    for h, got in zip(mats, np.asarray(out)):
        e = np.linalg.eigvalsh(h.astype(np.complex128))
        ref = np.array(select(e, k, which))
        sc = max(1.0, np.abs(e).max())
        expect(got.shape == ref.shape, f"{got.shape} eigenvalues, expected {ref.shape}")
        expect(np.isrealobj(got), "eigenvalues are not real")
        if which[1].lower() == "m":
            # ties in magnitude may be broken either way
            close(np.abs(got), np.abs(ref), tol, tol * sc, f"|eigenvalues| ({which})")
            left = list(e)
            for g in got:
                i = int(np.argmin([abs(g - v) for v in left]))
                expect(abs(left[i] - g) <= tol * sc * 10,
                       f"{g} is not an eigenvalue (or returned too often)")
                left.pop(i)
        else:
            close(got, ref, tol, tol * sc, f"eigenvalues ({which})")


def judge_vectors(out, vals, mats, k, which, tol):
    out = np.asarray(out)
    for b, h in enumerate(mats):
        v = out[b]
        n = h.shape[0]
        kk = n if k is None else k
        expect(v.shape == (n, kk), f"eigenvectors have shape {v.shape}, expected {(n, kk)}")
        sc = max(1.0, np.abs(np.linalg.eigvalsh(h)).max())
        close(v.conj().T @ v, np.eye(kk), 0, 10 * tol, "overlap matrix of the eigenvectors")
        lam = np.real(np.diag(v.conj().T @ h @ v))
        res = np.abs(h @ v - v * lam).max() if v.size else 0
        expect(res <= 20 * tol * sc, f"not eigenvectors, residual {res}")
        judge_values([lam], [h], k, which, 20 * tol)
        if vals is not None:
            close(np.asarray(vals)[b], lam, 10 * tol, 10 * tol * sc,
                  "eigenvalue paired with its eigenvector")


leaf = gen.leaf_of(n=st.sampled_from([3, 4, 5, 6, 2, 1, 7]), kind=st.sampled_from(
    ["generic", "positive", "degenerate", "symmetric", "offset"]), cplx=st.booleans())
cases = st.fixed_dictionaries(dict(
    tree=gen.trees(leaf, max_leaves=2, keys=["a", "b"], depth=2), b=st.integers(1, 3), seed=seeds,
    k=st.sampled_from([1, 2, 3, 4, 5, None]), which=st.sampled_from(WHICH),
    lower=st.booleans(), f32=st.sampled_from([False, False, False, True]),
    mod=st.sampled_from(["values", "vectors", "system"]),
))


@CHECK.sub("modules", cases, 640)
def eig_modules(c, ctx):
    specs = gen.leaf_specs(c["tree"])
    nmin = min(s["n"] for _, s in specs)
    k = None if c["k"] is None else min(c["k"], nmin)
    cnt = [0]

    def mk(s, path):
        cnt[0] += 1
        x = np.stack([matrix((c["seed"] + 97 * cnt[0] + i) % 2**32, s["n"], s["kind"], s["cplx"])
                      for i in range(c["b"])])
        if c["f32"]:
            x = x.astype(np.complex64 if s["cplx"] else np.float32)
        return x

    data = gen.build(c["tree"], mk)
    which = c["which"].lower() if c["lower"] else c["which"]
    cls = dict(values=M.Eigenvalues, vectors=M.Eigenvectors, system=M.Eigensystem)[c["mod"]]
    m = cls(num_eig=k, which=which)
    out = apply(m, data)
    check_shapes(m.get_output_shape(shapes(data)), out)
    tol = 2e-4 if c["f32"] else 1e-8
    if c["mod"] == "system":
        expect(isinstance(out, dict) and set(out) == {"eigenvalues", "eigenvectors"},
               "eigensystem output is not {eigenvalues, eigenvectors}")
        vals, vecs = out["eigenvalues"], out["eigenvectors"]
    else:
        vals, vecs = (out, None) if c["mod"] == "values" else (None, out)
    mats = gen.flat(data)
    for part in (vals, vecs):
        if part is not None:
            expect(gen.same_struct(part, data), "PyTree structure not preserved")
    fv = [None] * len(mats) if vals is None else [v for _, v in gen.flat(vals)]
    fw = [None] * len(mats) if vecs is None else [v for _, v in gen.flat(vecs)]
    for (_, h), v, w in zip(mats, fv, fw):
        if v is not None:
            judge_values(v, h, k, which, tol)
        if w is not None:
            judge_vectors(w, v, h, k, which, tol)
    ctx.mark(any(s["n"] >= 3 and k is not None and k < s["n"] for _, s in specs))
    ctx.label(c["which"], c["mod"], *[s["kind"] for _, s in specs])


@CHECK.sub("select", st.fixed_dictionaries(dict(
    n=st.sampled_from([3, 4, 5, 6, 7, 8, 2, 1]), k=st.sampled_from([1, 2, 3, 4, 5, 6, None]), seed=seeds,
    which=st.sampled_from(WHICH), shuffled=st.booleans(),
    kind=st.sampled_from(["generic", "positive", "degenerate", "symmetric"]))), 240)
def select_fn(c, ctx):
    """The selection used by all of them, on arbitrary (value, vector) pairs."""
    n = c["n"]
    k = None if c["k"] is None else min(c["k"], n)
    r = np.random.Generator(np.random.PCG64(c["seed"]))
    e = spectrum(r, n, c["kind"])
    if not c["shuffled"]:
        e = np.sort(e)
    V = r.standard_normal((n, n))
    E, W = pmm.eigen_util.select_eigenpairs_by_eigenvalue(
        jnp.asarray(e), jnp.asarray(V), k, c["which"])
    E2 = pmm.eigen_util.select_eigenvalues(jnp.asarray(e), k, c["which"])
    E, W, E2 = np.asarray(E), np.asarray(W), np.asarray(E2)
    ref = np.array(select(e, k, c["which"]))
    key = np.abs if c["which"][1] == "M" else (lambda v: v)
    close(key(E), key(ref), 0, 0, "selected eigenvalues")
    close(key(E2), key(ref), 0, 0, "selected eigenvalues (values only)")
    expect(W.shape == (n, len(ref)), f"selected vectors have shape {W.shape}")
    used = set()
    for i in range(len(ref)):
        cand = [j for j in range(n) if np.array_equal(V[:, j], W[:, i])]
        expect(cand, "a selected vector is not one of the columns")
        expect(e[cand[0]] == E[i], "value and vector of a pair were separated")
        expect(cand[0] not in used, "a pair was returned twice")
        used.add(cand[0])
    ctx.mark(n >= 3 and k is not None and k < n)
    ctx.label(c["which"], c["kind"])


@CHECK.sub("impossible", st.fixed_dictionaries(dict(
    mod=st.sampled_from(["values", "vectors", "system"]), which=st.sampled_from(WHICH),
    tree=gen.trees(gen.leaf_of(n=st.sampled_from([2, 3, 4, 1, 5])), max_leaves=3, depth=2),
    at=st.integers(0, 2), bad=st.sampled_from(["count", "wide", "tall", "vector"]), more=st.sampled_from([1, 2, 5]),
    seed=seeds)), 120)
def impossible(c, ctx):
    """More eigenpairs than a matrix has, or input that is not a stack of
    square matrices, is refused rather than answered with something else."""
    specs = gen.leaf_specs(c["tree"])
    bad = c["at"] % len(specs)
    n = specs[bad][1]["n"]
    k = n + c["more"] if c["bad"] == "count" else 1
    cnt = [0]

    def mk(s, path):
        i, n = cnt[0], s["n"]
        cnt[0] += 1
        if i != bad or c["bad"] == "count":
            return np.stack([matrix((c["seed"] + i + j) % 2**32, n if i == bad else max(n, k), "generic", True) for j in range(2)])
        shape = dict(wide=(2, n, n + c["more"]), tall=(2, n + c["more"], n), vector=(2, n + c["more"]))[c["bad"]]
        return gen.arr(c["seed"] % 2**31, shape)

    data = gen.build(c["tree"], mk)
    m = dict(values=M.Eigenvalues, vectors=M.Eigenvectors, system=M.Eigensystem)[c["mod"]](num_eig=k, which=c["which"])
    try:
        out = apply(m, data)
    except Exception:  # noqa: BLE001
        ctx.mark()
        ctx.label(c["bad"])
        return
    fail(f"{k} eigenpairs of matrices of shapes {shapes(to_jax(data))} gave {shapes(out)}")
