"""C03 observable sums and the packaged affine PMMs."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from checks.c01 import ref_affine
from checks.c02 import WHICH, select
from pbt.core import Check, Discard, close, expect
from pbt.gen import arr, herm, seeds, unwrap, wrap, wraps
from pbt.sut import M, apply, call, check_shapes, shapes, to_jax

CHECK = Check(
    "C03",
    "matrix size, number of states, observables per output, outputs, "
    "centering, bias, smoothing, selection rule, input features, containers "
    "and values are drawn; non-trivial: matrices of size >= 2 and at least "
    "two terms in the sum",
)


def given(**kw):
    """Only the options that are set."""
    return {k: v for k, v in kw.items() if v is not None}


def norm2(D):
    return np.abs(np.linalg.eigvalsh(D)).max()


def ref_obs(Ds, V, kind, centered):
    """V: (n, r) columns are states. Explicit loops."""
    q, l = Ds.shape[:2]
    n, r = V.shape
    z = np.zeros(q)
    for k in range(q):
        for m in range(l):
            D = Ds[k, m]
            for i in range(r):
                if kind == "exp":
                    z[k] += (V[:, i].conj() @ D @ V[:, i]).real
                else:
                    for j in range(r):
                        z[k] += abs(V[:, i].conj() @ D @ V[:, j]) ** 2
            if centered:
                z[k] -= 0.5 * norm2(D) ** 2
    return z


@CHECK.sub("observables", st.fixed_dictionaries(dict(
    n=st.sampled_from([2, 3, 4, 1, 5]), r=st.sampled_from([2, 1, 3, 4]),
    q=st.sampled_from([1, 2, 3]), l=st.sampled_from([1, 2, 3]),
    b=st.sampled_from([1, 2, 3]), centered=st.booleans(), kind=st.sampled_from(["exp", "tra"]),
    cplx=st.booleans(), vc=st.booleans(), ortho=st.booleans(), seed=seeds, wraps=wraps,
    how=st.sampled_from(["init", "set", "random"]))), 420)
def observables(c, ctx):
    n, q, l, b = c["n"], c["q"], c["l"], c["b"]
    r = min(c["r"], n)
    V = arr(c["seed"], (b, n, r), c["vc"])
    if c["ortho"]:
        V = np.stack([np.linalg.qr(v)[0] for v in V])
    Ds = herm(c["seed"] + 1, (q, l, n, n), c["cplx"])
    data = wrap(V, c["wraps"])
    cls = M.ExpectationValueSum if c["kind"] == "exp" else M.TransitionAmplitudeSum
    if c["how"] == "init":
        m = cls(Ds=jnp.asarray(Ds), centered=c["centered"])
        out = apply(m, data)
    else:
        m = cls(num_observables=l, output_size=q, centered=c["centered"], init_magnitude=0.6)
        out = apply(m, data, seed=c["seed"] % 991,
                    params=jnp.asarray(Ds) if c["how"] == "set" else None)
        Ds = np.asarray(m.get_params()).astype(complex)
    expect(Ds.shape == (q, l, n, n), f"observables have shape {Ds.shape}")
    check_shapes(m.get_output_shape(shapes(to_jax(data))), out)
    out = np.asarray(unwrap(out, c["wraps"]))
    ref = np.array([ref_obs(Ds, v, c["kind"], c["centered"]) for v in V])
    expect(np.isrealobj(out), "output is not real")
    tol = 1e-4 if c["how"] == "random" else 1e-9
    close(out, ref, tol, tol * max(1, np.abs(ref).max()), "observable sum")
    ctx.mark(n >= 2 and (l > 1 or r > 1))
    ctx.label(c["kind"], c["how"], "centered" if c["centered"] else "uncentered")


pm = dict(p=st.sampled_from([1, 2, 3]), n=st.sampled_from([2, 3, 4, 5]), b=st.sampled_from([1, 3]),
          k=st.sampled_from([1, 2, 3]), smoothing=st.sampled_from([None, 0.0, 0.5, 1.5]),
          affbias=st.booleans(), cplx=st.booleans(), seed=seeds, wraps=wraps,
          given_=st.booleans())


@CHECK.sub("eigenvalue_pmm", st.fixed_dictionaries(
    {**pm, "which": st.sampled_from(WHICH)}), 200)
def eigenvalue_pmm(c, ctx):
    p, n = c["p"], c["n"]
    k = min(c["k"], n)
    nm = p + 1 if c["affbias"] else p
    x = arr(c["seed"], (c["b"], p))
    Ms = herm(c["seed"] + 1, (nm, n, n), c["cplx"])
    m = M.AffineEigenvaluePMM(**given(
        matrix_size=n, num_eig=k, which=c["which"], smoothing=c["smoothing"],
        Ms=jnp.asarray(Ms) if c["given_"] else None, bias_term=c["affbias"],
        init_magnitude=0.5))
    data = to_jax(wrap(x, c["wraps"]))
    m.compile(c["seed"] % 1000, shapes(data))
    if not c["given_"]:
        Ms = np.asarray(jax.tree.leaves(m.get_params())[0])
    out = m(data)
    check_shapes(m.get_output_shape(shapes(data)), out)
    out = np.asarray(unwrap(out, c["wraps"]))
    H = ref_affine(Ms, x, c["affbias"], c["smoothing"])
    ref = np.array([select(np.linalg.eigvalsh(h), k, c["which"]) for h in H])
    f = np.abs if c["which"][1] == "M" else (lambda v: v)
    tol = 1e-8 if c["given_"] else 1e-4
    close(f(out), f(ref), tol, tol * max(1, np.abs(ref).max()), "eigenvalues")
    ctx.mark(nm >= 2)
    ctx.label(c["which"], "given" if c["given_"] else "random")


@CHECK.sub("observable_pmm", st.fixed_dictionaries(
    {**pm, "which": st.sampled_from(WHICH + [None, None]), "q": st.sampled_from([1, 2, 3]),
     "l": st.sampled_from([1, 2]), "centered": st.booleans(), "bias": st.booleans(),
     "exp": st.booleans()}), 260)
def observable_pmm(c, ctx):
    p, n, q, l = c["p"], c["n"], c["q"], c["l"]
    k = min(c["k"], n)
    nm = p + 1 if c["affbias"] else p
    x = arr(c["seed"], (c["b"], p))
    Ms = herm(c["seed"] + 1, (nm, n, n), c["cplx"])
    Ds = herm(c["seed"] + 2, (q, l, n, n), c["cplx"])
    bb = arr(c["seed"] + 3, (q,))
    kw = dict(Ms=jnp.asarray(Ms), Ds=jnp.asarray(Ds),
              b=jnp.asarray(bb) if c["bias"] else None) if c["given_"] else {}
    m = M.AffineObservablePMM(**given(
        matrix_size=n, num_eig=k, which=c["which"], smoothing=c["smoothing"],
        affine_bias_matrix=c["affbias"], num_secondaries=l, output_size=q,
        centered=c["centered"], bias_term=c["bias"], use_expectation_values=c["exp"],
        init_magnitude=0.7, **kw))
    data = to_jax(wrap(x, c["wraps"]))
    m.compile(c["seed"] % 1000, shapes(data))
    tol = 1e-6
    if not c["given_"]:
        lv = [np.asarray(v) for v in jax.tree.leaves(m.get_params())]
        Ms, Ds = lv[0].astype(complex), lv[1].astype(complex)
        expect(len(lv) == (3 if c["bias"] else 2), "unexpected number of parameter arrays")
        bb = lv[2] if c["bias"] else None
        tol = 1e-3
    which = c["which"] or ("SA" if c["smoothing"] else "LM")
    H = ref_affine(Ms, x, c["affbias"], c["smoothing"])
    ref = []
    for h in H:
        e, V = np.linalg.eigh(h)
        key = e if which[1] == "A" else np.abs(e)
        s = np.sort(key)
        if len(s) > 1 and np.diff(s).min() < 1e-2:
            raise Discard  # eigenvectors ill-conditioned
        sel = select(e, k, which)
        idx = [int(np.argmin(np.abs(e - v))) for v in sel]
        z = ref_obs(Ds, V[:, idx], "exp" if c["exp"] else "tra", c["centered"])
        ref.append(z + bb if c["bias"] else z)
    out = m(data)
    check_shapes(m.get_output_shape(shapes(data)), out)
    out = np.asarray(unwrap(out, c["wraps"]))
    ref = np.array(ref)
    close(out, ref, tol, tol * max(1, np.abs(ref).max()), "observable PMM output")
    ctx.mark(nm >= 2)
    ctx.label(which, "given" if c["given_"] else "random", "exp" if c["exp"] else "tra")
