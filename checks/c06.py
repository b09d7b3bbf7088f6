"""C06 declared output shapes; C07's generator of models is used."""
import jax
import numpy as np
from hypothesis import strategies as st

from pbt import gen, graphs, models, zoo
from pbt import usermods as U
from pbt.core import Check, expect, fail
from pbt.gen import seeds
from pbt.sut import M, call, norm_shape, pmm, shapes, to_jax

CHECK = Check(
    "C06",
    "pipelines of modules of all kinds that fit together, over arrays and "
    "PyTrees, in nested containers and sub-models, and batch sizes are drawn; "
    "shapes are also inferred independently by the generator; non-trivial: at "
    "least two modules or a PyTree input",
)


@CHECK.sub("sequential", st.fixed_dictionaries(dict(
    net=models.pipelines(hi=5, real_out=False), box=models.boxes(), b=st.sampled_from([1, 2, 3, 5]),
    seed=st.integers(0, 9999))), 420)
def sequential(c, ctx):
    net = c["net"]
    mods = [models.make(d) for d in net["mods"]]
    ishape = models.spec_shape(net["in"])
    want = norm_shape(models.spec_shape(net["out"]))
    m = pmm.SequentialModel(models.arrange(mods, c["box"]))
    m.compile(c["seed"], ishape)
    for what, got in [("get_output_shape of the compiled model", m.get_output_shape(ishape)),
                      ("output_shape of the compiled model", m.output_shape)]:
        expect(norm_shape(got) == want, f"{what} is {got!r}, expected {want!r}")
    x = models.data(net["in"], c["seed"], c["b"])
    out = m(to_jax(x))
    got = norm_shape(shapes(out))
    expect(got == want, f"output has shape {got!r}, expected {want!r}")
    expect(all(v.shape[0] == c["b"] for _, v in gen.flat(out)), "number of samples changed")
    # the same modules, one by one
    cur = ishape
    for md, d in zip(mods, net["mods"]):
        cur = md.get_output_shape(cur)
    expect(norm_shape(cur) == want, f"chained shapes give {cur!r}, expected {want!r}")
    ctx.mark(len(mods) > 1 or not gen.is_leaf(net["in"]))
    ctx.label(*{d["m"] for d in net["mods"]})


@CHECK.sub("uncompiled", st.fixed_dictionaries(dict(
    net=models.pipelines(hi=4, real_out=False), box=models.boxes(), seed=seeds)), 200)
def uncompiled(c, ctx):
    """Before compilation the declared shape is already the right one, and
    asking for it does not change what the model computes."""
    net = c["net"]
    ishape = models.spec_shape(net["in"])
    want = norm_shape(models.spec_shape(net["out"]))
    m = pmm.SequentialModel(models.arrange([models.make(d) for d in net["mods"]], c["box"]))
    got = m.get_output_shape(ishape)
    expect(norm_shape(got) == want, f"declared shape {got!r}, expected {want!r}")
    expect(not m.is_ready(), "asking for a shape made the model ready")
    m.compile(3, ishape)
    expect(norm_shape(m.get_output_shape(ishape)) == want, "declared shape changed by compile")
    ctx.mark(len(net["mods"]) > 1 or not gen.is_leaf(net["in"]))


@CHECK.sub("graph", st.fixed_dictionaries(dict(
    g=graphs.graphs(), b=st.sampled_from([1, 2, 4]), seed=seeds)), 260)
def graph(c, ctx):
    g = c["g"]
    ishape = graphs.in_shape(g)
    m, mods = graphs.build(g)
    before = m.get_output_shape(ishape)
    expect(not m.is_ready(), "asking for a shape made the model ready")
    m.compile(c["seed"] % 97, ishape)
    after = m.get_output_shape(ishape)
    x = graphs.data(g, c["seed"], c["b"])
    want = norm_shape(shapes(graphs.interpret(g, mods, x)))
    out = m(to_jax(x))
    got = norm_shape(shapes(out))
    for what, s in [("before compilation", before), ("after compilation", after), ("output_shape", m.output_shape)]:
        expect(norm_shape(s) == want, f"declared shape {what} is {s!r}, expected {want!r}")
    expect(got == want, f"output has shape {got!r}, expected {want!r}")
    expect(all(v.shape[0] == c["b"] for _, v in gen.flat(out)), "number of samples changed")
    ctx.mark(len(g["conn"]) > 1)


def run(m, x):
    return m(x) if isinstance(m, pmm.Model) else call(m, x)


def leaves(f, t):
    if gen.is_leaf(t):
        return {**t, "s": f(t["s"])}
    return {**t, "c": [leaves(f, s) for s in t["c"]]}


@CHECK.sub("resizing", st.fixed_dictionaries(dict(
    act=st.sampled_from([["GLU"], ["OneHot", 3], ["OneHot", 2], ["LogSumExp", {"axis": -1}], ["AMax", {"axis": -1}],
                         ["AMin", {"axis": 1}], ["Softmax"]]),
    t=gen.trees(gen.leaf_of(s=st.lists(st.sampled_from([2, 4, 3, 1]), min_size=1, max_size=3), k=st.just("r")),
                max_leaves=3, depth=2, keys=["b", "a", "2"]),
    after=st.sampled_from(["none", "flatten", "bias", "model"]), b=st.sampled_from([1, 2, 3]), seed=seeds)), 160)
def resizing(c, ctx):
    """Activation functions that are not elementwise."""
    # the axis that GLU halves has to be even, a reduction has to leave an axis
    t = c["t"]
    if c["act"][0] == "GLU":
        t = leaves(lambda s: s[:-1] + [2 * s[-1]], t)
    elif c["act"][0] in ("LogSumExp", "AMax", "AMin"):
        t = leaves(lambda s: s + [2], t)
    ishape = gen.build(t, lambda s, p: tuple(s["s"]))
    mods = [zoo.act(c["act"])]
    if c["after"] == "flatten":
        mods.append(M.Flatten())
    if c["after"] == "bias":
        mods.append(M.Bias())
    m = mods[0] if c["after"] == "none" else pmm.SequentialModel(mods)
    before = m.get_output_shape(ishape)
    m.compile(3 if c["after"] != "none" else jax.random.key(3), ishape)
    after = m.get_output_shape(ishape)
    i = [0]

    def mk(s, p):
        i[0] += 1
        return np.abs(gen.arr(c["seed"] + i[0], (c["b"], *s["s"])))

    got = norm_shape(shapes(run(m, to_jax(gen.build(t, mk)))))
    for what, d in [("before", before), ("after", after)]:
        expect(norm_shape(d) == got, f"{c['act']}: declared shape {what} compilation {d!r}, output {got!r}")
    ctx.mark(got != norm_shape(ishape))
    ctx.label(c["act"][0])


othershape = st.one_of(zoo.rtree, gen.trees(gen.leaf_of(
    s=st.lists(st.sampled_from([1, 2, 3, 4]), min_size=0, max_size=4), k=st.just("r")), max_leaves=3, depth=2, keys=["b", "a"]))


@CHECK.sub("anyshape", st.fixed_dictionaries(dict(z=zoo.modules, o=othershape, b=st.sampled_from([3, 1, 2]))), 260)
def anyshape(c, ctx):
    """A module prepared for arbitrary shapes either refuses them or computes
    outputs of the shape it declares."""
    m = zoo.make(c["z"])
    sh = gen.build(c["o"], lambda s, p: tuple(s["s"]))
    x = to_jax(zoo.data({**c["z"], "in": c["o"]}, c["b"]))
    try:
        before = m.get_output_shape(sh)
        m.compile(jax.random.key(0), sh)
        after = m.get_output_shape(sh)
    except Exception:
        ctx.label("refused")
        return
    try:
        out = run(m, x)
    except Exception as e:
        fail(f"{c['z']['d']}: compiled for {sh!r} and declares {after!r}, but raises {type(e).__name__}: {e}")
    got = norm_shape(shapes(out))
    for what, d in [("before", before), ("after", after)]:
        expect(norm_shape(d) == got, f"{c['z']['d']}: declared shape {what} compilation {d!r}, output {got!r}")
    ctx.mark(True)
    ctx.label("accepted", c["z"]["d"]["m"])


@CHECK.sub("mismatch", st.fixed_dictionaries(dict(
    t=gen.trees(gen.leaf_of(s=st.lists(st.sampled_from([2, 3, 1]), min_size=1, max_size=3), k=st.just("r")), max_leaves=3, depth=2, keys=["b", "a"]),
    kind=st.sampled_from(["seq", "graph", "nested"]), bad=st.sampled_from(["size", "axis", "drop", "more", "wrap", "uncompiled", "transpose"]),
    at=st.integers(0, 2), seen=st.booleans(), how=st.sampled_from(["call", "predict", "gin", "gpar", "train"]), seed=seeds)), 120)
def mismatch(c, ctx):
    """Data of another shape or structure than the model was compiled for is
    refused, also when the modules could process it."""
    ishape = gen.build(c["t"], lambda s, p: tuple(s["s"]))
    mk = lambda: U.Scale(0.7, 0.1)  # noqa: E731
    m = dict(seq=lambda: pmm.SequentialModel([mk(), mk()]), nested=lambda: pmm.SequentialModel([pmm.SequentialModel([mk()])]),
             graph=lambda: pmm.NonSequentialModel({"a": mk()}, {"input": "a", "a": "output"}))[c["kind"]]()
    good = gen.build(c["t"], lambda s, p: gen.arr(c["seed"], (3, *s["s"])))
    paths = [p for p, _ in gen.flat(good)]
    p = paths[c["at"] % len(paths)]
    bad = c["bad"]

    def edit(v, q):
        if q == p:
            if bad == "size":
                return np.concatenate([v, v], axis=1)
            if bad == "axis":
                return v[..., None]
            if bad == "transpose":
                return v.swapaxes(1, -1) if v.shape[1] != v.shape[-1] else v[..., None]
            return v
        if isinstance(v, dict):
            return {k: edit(w, q + (k,)) for k, w in v.items()}
        return type(v)(edit(w, q + (i,)) for i, w in enumerate(v)) if isinstance(v, (list, tuple)) else v

    x = edit(good, ())
    if bad == "wrap":
        x = {"w": x}
    elif bad in ("drop", "more"):
        x = [good, good] if bad == "more" or len(paths) == 1 else [v for _, v in gen.flat(good)][:-1]
    if bad != "uncompiled":
        m.compile(1, ishape)
        if c["seen"]:
            m(to_jax(good))
    jx = to_jax(x)
    try:
        out = dict(call=lambda: m(jx), predict=lambda: m.predict(jx), gin=lambda: m.grad_input(jx), gpar=lambda: m.grad_params(jx),
                   train=lambda: m.train(jx, jx, epochs=1, verbose=False) if bad != "uncompiled" else m(jx))[c["how"]]()
    except Exception:  # noqa: BLE001
        ctx.mark()
        ctx.label(bad, c["how"])
        return
    fail(f"compiled for {ishape!r}, given {shapes(jx)!r}: accepted, and gave {out!r:.200}")
