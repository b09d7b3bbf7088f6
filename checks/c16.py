"""C16 editing models."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, zoo
from pbt import usermods as U
from pbt.core import Check, Discard, close, expect, fail, same
from pbt.gen import seeds
from pbt.sut import pmm, to_jax
from checks.c12 import out, same_tree

CHECK = Check(
    "C16",
    "random histories of editing (nested) sequential models kept in lists, "
    "tuples and dictionaries, compiling, evaluating, differentiating and "
    "setting parameters; the oracle is an ordinary Python list of (a, c) pairs "
    "composed and differentiated by hand; graph models with replaced modules "
    "against newly built ones; models compiled again for other shapes and "
    "trained after edits against new models; "
    "non-trivial: the model was evaluated both before and after an edit",
)
F = [-0.9, 0.4, 0.8, -0.3]


# --------------------------------------------------------------- reference
class Item:
    """A module of the model: its own numbers, or an inner model's items."""

    def __init__(self, d):
        self.inner = None
        if d["k"] == "gain":
            self.m, self.kind = U.Gain(d["a"]), "gain"
            self.a, self.c = d["a"], 0.0
        elif d["k"] == "sub":
            self.inner = [Item(dict(d, k="scale")), Item(dict(d, k="scale", a=1.7 - d["a"]))]
            self.m, self.kind = pmm.SequentialModel([i.m for i in self.inner]), "sub"
        else:
            self.m, self.kind = U.Scale(d["a"], d["c"]), "scale"
            self.a, self.c = d["a"], d["c"]

    def flat(self):
        if self.kind != "sub":
            return [self]
        return [j for i in self.inner for j in i.flat()]


ITEM = st.fixed_dictionaries(dict(k=st.sampled_from(["scale", "scale", "scale", "gain", "sub"]),
                                  a=st.sampled_from([0.5, 0.8, 1.3, 1.1, -0.7]), c=st.sampled_from([0.1, -0.2, 0.05])))
POS = st.sampled_from([0, 1, -1, 2, -2, 3, 99, -99])
PICK = st.integers(0, 9)


def op(name, **kw):
    return st.fixed_dictionaries(dict(op=st.just(name), **kw))


EVAL = st.one_of(
    op("call", n=st.sampled_from([1, 2, 3, 5]), b=st.sampled_from([None, None, 2])),
    op("call", n=st.sampled_from([2, 4]), b=st.sampled_from([None, 2])),
    op("gin", n=st.sampled_from([1, 2, 3])),
    op("gpar", n=st.sampled_from([1, 2])),
)
EDIT = st.one_of(
    op("append", i=ITEM, how=st.sampled_from(["append", "append_module", "add", "add_module"])),
    op("prepend", i=ITEM, how=st.sampled_from(["prepend", "prepend_module"])),
    op("insert", i=ITEM, at=POS, how=st.sampled_from(["insert", "insert_module"])),
    op("popi", at=POS),
    op("pop", pick=PICK, how=st.sampled_from(["pop", "pop_module_by_key"])),
    op("set", pick=PICK, i=ITEM, how=st.sampled_from(["direct", "path", "neg"])),
    op("slice", lo=st.sampled_from([None, 0, 1, 2, -1]), hi=st.sampled_from([None, 0, 1, 2, -1]), i=st.lists(ITEM, max_size=2)),
    op("all", i=st.lists(ITEM, min_size=1, max_size=3), kind=st.sampled_from(["list", "tuple", "dict", "one"])),
    op("plus", i=ITEM),
    op("inner", pick=PICK, what=st.sampled_from(["append", "prepend", "pop", "set"]), i=ITEM),
    op("inner", pick=PICK, what=st.sampled_from(["append", "pop"]), i=ITEM),
    op("gain", pick=PICK, g=st.sampled_from([0.6, 1.4, -0.9])),
    op("bad", what=st.sampled_from(["str", "int", "index", "key", "type"])),
)
OTHER = st.one_of(
    op("params", f=st.sampled_from([0.9, 1.1, -1.0])),
    op("freeze", pick=PICK),
    op("get", pick=PICK),
    op("compile"),
)
ROUND = st.tuples(st.lists(EVAL, min_size=1, max_size=2), st.lists(OTHER, max_size=1), st.lists(EDIT, min_size=1, max_size=2)).map(
    lambda t: t[0] + t[1] + t[2])


def between(a, b):
    """A name that is sorted between two others."""
    a, b = (a or ""), (b or "~")
    out = ""
    for i in range(40):
        lo = ord(a[i]) if i < len(a) else 33
        hi = ord(b[i]) if i < len(b) else 126
        if hi - lo > 1:
            return out + chr((lo + hi) // 2)
        out += chr(lo)
        if hi > lo:
            b = ""
    raise Discard()


class World:
    def __init__(self, kind, items):
        self.kind = kind
        self.items = items
        self.made = False
        self.keys = ["c", "f", "m", "p", "t"][: len(items)] if kind == "dict" else None
        self.model = pmm.SequentialModel(self.box())

    def box(self):
        ms = [i.m for i in self.items]
        if self.kind == "dict":
            return dict(zip(self.keys, ms))
        return ms if self.kind == "list" else tuple(ms)

    def key(self, at):
        n = len(self.items)
        at = max(0, at + n) if at < 0 else min(at, n)
        return between(self.keys[at - 1] if at > 0 else None, self.keys[at] if at < n else None)

    def named(self, what):
        """Take over a name made up by the model; modules run in the order of
        their names."""
        new = set(self.model.modules) - set(self.keys)
        expect(len(new) == 1 and all(isinstance(k, str) for k in new), lambda: f"new names {new} after {what}")
        self.keys = sorted([*self.keys, *new])
        self.made = True
        return self.keys.index(*new)

    def flat(self):
        return [j for i in self.items for j in i.flat()]

    def check(self, what):
        m = self.model
        got = m.modules
        expect(type(got).__name__ == self.kind, lambda: f"container is {type(got).__name__}, was {self.kind} ({what})")
        if self.kind == "dict":
            expect(sorted(got) == self.keys, lambda: f"names {sorted(got)}, expected {self.keys} ({what})")
            got = [got[k] for k in self.keys]
        expect(len(got) == len(self.items) and all(g is i.m for g, i in zip(got, self.items)), lambda: f"wrong modules after {what}")
        for i in self.items:
            if i.inner is not None:
                expect(len(i.m.modules) == len(i.inner) and all(g is j.m for g, j in zip(i.m.modules, i.inner)),
                       lambda: f"wrong modules in the inner model after {what}")


def forward(flat, x):
    h = x
    for i in flat:
        h = i.a * h + i.c * h * h
    return h


def derivs(flat, x):
    """d out/d x, and d out/d (a, c) of every item, entry by entry."""
    hs = [x]
    for i in flat:
        hs.append(i.a * hs[-1] + i.c * hs[-1] ** 2)
    back = np.ones_like(x)
    par = []
    for i, h in zip(reversed(flat), reversed(hs[:-1])):
        par.append((back * h, back * h * h))
        back = back * (i.a + 2 * i.c * h)
    return back, par[::-1]


def check_par(w, got, x, what):
    """The jacobian with respect to the parameters: (n, 2, 1) per number."""
    par = derivs(w.flat(), x)[1]
    want = [v for i, p in zip(w.flat(), par) if i.kind == "scale" for v in p]
    g = [np.asarray(v) for v in jax.tree.leaves(got)]
    expect(len(g) == len(want), lambda: f"{len(g)} derivatives for {len(want)} parameters ({what})")
    for p, q in zip(want, g):
        close(p[..., None], q, 1e-9, 1e-10, f"grad_params {what}")


def data(seed, n):
    return np.asarray(gen.arr(seed, [n, 2])) * 0.7


def run(c, ctx):
    w = World(c["kind"], [Item(d) for d in c["items"]])
    ready = False
    edits = evals = 0
    rnd = c["seed"] % 99991
    hist = []

    def compile_():
        nonlocal ready, rnd
        rnd += 1
        w.model.compile(rnd, (2,))
        ready = True

    compile_()
    for o in [q for r in c["ops"] for q in r] + [dict(op="call", n=3, b=None)]:
        k, m = o["op"], w.model
        hist.append(k)
        what = f"{hist}"
        n = len(w.items)
        edited = False
        if k in ("call", "gin", "gpar", "params", "freeze", "compile"):
            if n == 0:
                expect(not m.is_ready(), "a model without modules is ready")
                continue
            expect(m.is_ready() == ready, lambda: f"ready is {m.is_ready()} after {what}")
            if not ready:
                x = jnp.asarray(data(rnd, 2))
                try:
                    m(x)
                except (RuntimeError, ValueError):
                    pass
                else:
                    fail(f"the model was evaluated before it was compiled again: {what}")
                compile_()
            elif k == "compile":
                compile_()
        if k == "call":
            rnd += 1
            x = data(rnd, o["n"])
            y = m(jnp.asarray(x)) if o["b"] is None else m(jnp.asarray(x), max_batch_size=o["b"])
            close(forward(w.flat(), x), y, 1e-9, 1e-10, f"prediction after {what}")
            evals += 1
        elif k == "gin":
            rnd += 1
            x = data(rnd, o["n"])
            g = np.asarray(m.grad_input(jnp.asarray(x)))
            d = derivs(w.flat(), x)[0]
            want = np.zeros((o["n"], 2, 2))
            for i in range(2):
                want[:, i, i] = d[:, i]
            close(want, g, 1e-9, 1e-10, f"grad_input after {what}")
        elif k == "gpar":
            rnd += 1
            x = data(rnd, o["n"])
            if any(i.kind == "scale" for i in w.flat()):
                check_par(w, m.grad_params(jnp.asarray(x)), x, f"after {what}")
        elif k == "params":
            p = m.get_params()
            m.set_params(jax.tree.map(lambda v: v * o["f"], p))
            for i in w.flat():
                if i.kind == "scale":
                    i.a, i.c = i.a * o["f"], i.c * o["f"]
        elif k == "freeze":
            w.items[o["pick"] % n].m.freeze()
            w.items[o["pick"] % n].m.unfreeze()
        elif k == "get":
            if n:
                j = o["pick"] % n
                if w.kind == "dict":
                    kk = w.keys[j]
                    expect(m[kk] is w.items[j].m and m[(kk,)] is w.items[j].m, "access by name")
                else:
                    expect(m[j] is w.items[j].m and m[j - n] is w.items[j].m and m[(j,)] is w.items[j].m, "access by index")
                    part = m[j:]
                    expect(len(part) == n - j and all(a is b.m for a, b in zip(part, w.items[j:])), "access by slice")
                expect(m[None] is m.modules, "access to all modules")
        elif k in ("append", "prepend", "insert"):
            if len(w.flat()) > 6:
                continue
            i = Item(o["i"])
            at = {"append": n, "prepend": 0}.get(k, o.get("at"))
            args = (at, i.m) if k == "insert" else (i.m,)
            if w.kind == "dict" and o["i"]["c"] == 0.05:
                # the model makes up a name itself
                getattr(m, o["how"])(*args)
                at = w.named(what)
            elif w.kind == "dict":
                key = w.key(at)
                getattr(m, o["how"])(*args, key=key)
                w.keys.insert(at, key)
            else:
                getattr(m, o["how"])(*args)
            w.items.insert(at, i)
            edited = True
        elif k == "popi":
            if not -n <= o["at"] < n:
                try:
                    m.pop_module_by_index(o["at"])
                except IndexError:
                    pass
                else:
                    fail(f"module {o['at']} of {n} was removed")
            else:
                at = o["at"]
                if w.kind == "dict" and w.made:
                    # names made up by the model need not be sorted where they
                    # were inserted; indices count insertions
                    at = w.keys.index(list(m.modules)[at])
                got = m.pop_module_by_index(o["at"])
                if w.kind == "dict":
                    w.keys.pop(at)
                expect(got is w.items.pop(at).m, f"wrong module removed ({what})")
            edited = True
        elif k == "pop":
            if not n:
                continue
            j = o["pick"] % n
            got = getattr(m, o["how"])(w.keys.pop(j) if w.kind == "dict" else j)
            expect(got is w.items.pop(j).m, f"wrong module removed ({what})")
            edited = True
        elif k == "set":
            if not n:
                continue
            j = o["pick"] % n
            i = Item(o["i"])
            if w.kind == "dict":
                m[(w.keys[j],) if o["how"] == "path" else w.keys[j]] = i.m
            elif w.kind == "list" and o["how"] == "path":
                m[(j,)] = i.m
            else:
                m[j - n if o["how"] == "neg" else j] = i.m
            w.items[j] = i
            edited = True
        elif k == "slice":
            if w.kind == "dict":
                continue
            new = [Item(d) for d in o["i"]]
            m[o["lo"]:o["hi"]] = [i.m for i in new]
            w.items[o["lo"]:o["hi"]] = new
            edited = True
        elif k == "all":
            new = [Item(d) for d in o["i"]]
            if o["kind"] == "one":
                w.kind, w.items = "list", new[:1]
                m[None] = new[0].m
            else:
                w.kind, w.items = o["kind"], new
                w.keys = ["d", "k", "r"][: len(new)] if w.kind == "dict" else None
                m[None] = w.box()
            edited = True
        elif k == "plus":
            if len(w.flat()) > 6:
                continue
            i = Item(o["i"])
            was, flat = m.is_ready(), w.flat()
            new = m + i.m
            w.check(f"+ (the summand itself): {what}")
            expect(m.is_ready() == was, "the summand is no longer ready")
            if was:
                x = data(rnd, 2)
                close(forward(flat, x), m(jnp.asarray(x)), 1e-9, 1e-10, f"the summand itself after {what}")
            w.model = new
            at = w.named(what) if w.kind == "dict" else n
            w.items = w.items[:at] + [i] + w.items[at:]
            edited = True
        elif k == "inner":
            subs = [i for i in w.items if i.kind == "sub"]
            if not subs:
                continue
            s = subs[o["pick"] % len(subs)]
            if o["what"] == "pop":
                if len(s.inner) < 2:
                    continue
                s.m.pop(0)
                s.inner.pop(0)
            else:
                if len(w.flat()) > 6 and o["what"] != "set":
                    continue
                i = Item(dict(o["i"], k="scale"))
                if o["what"] == "set":
                    s.m[0] = i.m
                    s.inner[0] = i
                else:
                    getattr(s.m, o["what"])(i.m)
                    s.inner.insert(0 if o["what"] == "prepend" else len(s.inner), i)
            edited = True
        elif k == "gain":
            gs = [i for i in w.flat() if i.kind == "gain"]
            if not gs:
                continue
            i = gs[o["pick"] % len(gs)]
            i.m.g = i.a = o["g"]
            if n:
                compile_()
            edits += 1
        elif k == "bad":
            bad = {"str": "nothing", "int": 0, "index": 55, "key": "nothing", "type": 1.5}[o["what"]]
            if (o["what"] == "int") == (w.kind != "dict"):
                continue
            try:
                m.pop(bad)
            except (KeyError, IndexError, TypeError):
                pass
            except Exception as e:  # (type checker)
                expect(o["what"] == "type", f"{e!r}")
            else:
                fail(f"{bad!r} was removed from a {w.kind}")
            edited = True
        if edited:
            ready = False
            edits += 1
            w.check(what)
            if k not in ("popi", "bad"):
                expect(not w.model.is_ready(), lambda: f"still ready after {what}")
            elif w.model.is_ready():
                ready = True
    w.check("the history")
    ctx.mark(edits > 0 and evals > 1)
    ctx.label(w.kind)


@CHECK.sub("history", st.fixed_dictionaries(dict(
    kind=st.sampled_from(["list", "dict", "tuple"]), items=st.lists(ITEM, min_size=1, max_size=3),
    ops=st.lists(ROUND, min_size=1, max_size=3), seed=seeds)), 160)
def history(c, ctx):
    run(c, ctx)


# ------------------------------------------------------------ graph models


def wires(kind):
    if kind == "chain":
        return {"input": "A", "A": "B", "B": "C", "C": "output"}
    if kind == "fork":
        return {"input": ["A", "B"], "A": "C.x", "B": ["C.y", "output.b"], "C": "output.c"}
    return {"input": ["B", "C.q"], "B": ["A", "C.p"], "A": "output.0", "C": "output.1"}


@CHECK.sub("graph", st.fixed_dictionaries(dict(
    wires=st.sampled_from(["chain", "fork", "skip"]), items=st.lists(ITEM, min_size=3, max_size=3), gap=st.booleans(), seed=seeds,
    ops=st.lists(st.one_of(op("set", pick=PICK, i=ITEM, how=st.sampled_from(["direct", "path"])),
                           op("inner", pick=PICK, i=ITEM),
                           op("swap", pick=PICK), op("gain", pick=PICK, g=st.sampled_from([0.6, 1.4])),
                           op("params", f=st.sampled_from([0.9, -1.0]))), min_size=1, max_size=4))), 60)
def graph(c, ctx):
    items = [Item(d) for d in c["items"]]
    names = ["A", "B", "C"]
    m = pmm.NonSequentialModel(dict(zip(names, [i.m for i in items])), wires(c["wires"]))
    rnd = c["seed"] % 99991

    def compose(i, d):
        for j in items[i].flat():
            d = gen.tmap(lambda v: j.a * v + j.c * v * v, d)
        return d

    def want(x):
        f = compose
        if c["wires"] == "chain":
            return f(2, f(1, f(0, x)))
        b = f(1, x)
        if c["wires"] == "fork":
            return {"b": b, "c": f(2, {"x": f(0, x), "y": b})}
        return [f(0, b), f(2, {"p": b, "q": x})]

    def check(what):
        nonlocal rnd
        rnd += 1
        x = data(rnd, 2)
        y, r = m(jnp.asarray(x)), want(x)
        expect(jax.tree.structure(y) == jax.tree.structure(r), lambda: f"structure {jax.tree.structure(y)} ({what})")
        for a, b in zip(jax.tree.leaves(r), jax.tree.leaves(y)):
            close(a, b, 1e-9, 1e-10, f"graph model after {what}")

    m.compile(rnd, (2,))
    check("compilation")
    hist = []
    edits = 0
    for o in c["ops"]:
        hist.append(o["op"])
        j = o.get("pick", 0) % 3
        if o["op"] == "set":
            items[j] = Item(o["i"])
            m[(names[j],) if o["how"] == "path" else names[j]] = items[j].m
        elif o["op"] == "swap":
            a, b = names[j], names[(j + 1) % 3]
            m[a], m[b] = m[b], m[a]
            items[j], items[(j + 1) % 3] = items[(j + 1) % 3], items[j]
        elif o["op"] == "inner":
            subs = [i for i in items if i.kind == "sub"]
            if not subs:
                continue
            i = Item(dict(o["i"], k="scale"))
            subs[0].m.append(i.m)
            subs[0].inner.append(i)
        elif o["op"] == "gain":
            gs = [i for q in items for i in q.flat() if i.kind == "gain"]
            if not gs:
                continue
            gs[0].m.g = gs[0].a = o["g"]
            m.compile(rnd, (2,))
            edits += 1
            check(str(hist))
            continue
        else:
            m.set_params(jax.tree.map(lambda v: v * o["f"], m.get_params()))
            for q in items:
                for i in q.flat():
                    if i.kind == "scale":
                        i.a, i.c = i.a * o["f"], i.c * o["f"]
            check(str(hist))
            continue
        edits += 1
        expect(not m.is_ready(), lambda: f"still ready after {hist}")
        m.compile(rnd, (2,))
        check(str(hist))
    ctx.mark(edits > 0)
    ctx.label(c["wires"])


# -------------------------------------------------------- compiling again
@CHECK.sub("again", st.fixed_dictionaries(dict(z=zoo.modules, other=zoo.rtree, keep=st.booleans(), seed=seeds)), 220)
def again(c, ctx):
    """Compiled for one input and then for another one: either refused, or like
    a new model."""
    z = c["z"]
    kinds = {s.get("k", "r") for _, s in gen.leaf_specs(z["in"])}
    other = z["in"] if c["keep"] or kinds != {"r"} else c["other"]
    m = pmm.SequentialModel([zoo.make(z), U.Gain(0.5)])
    m.compile(c["seed"] % 1009, zoo.shape(z))
    kw = dict(dtype=jnp.complex128) if kinds != {"r"} else {}
    m(to_jax(zoo.data(z, 2)), rng=3, **kw)
    shape = zoo.shape(dict(z, **{"in": other}))
    x = to_jax(zoo.data(dict(z, **{"in": other}), 3))
    p, s = m.get_params(), m.get_state()
    bits = jax.tree.map(np.asarray, p)
    try:
        m.compile(c["seed"] % 1009 + 1, shape)
    except Exception:
        # the same input is never refused
        expect(other != z["in"], "compiling again for the same input failed")
        raise Discard()
    if other == z["in"]:
        same_tree(bits, m.get_params(), "parameters after compiling again")
    new = pmm.SequentialModel([zoo.make(z), U.Gain(0.5)])
    new.compile(c["seed"] % 1009 + 1, shape)
    a, b = jax.tree.map(np.shape, new.get_params()), jax.tree.map(np.shape, m.get_params())
    expect(a == b, lambda: f"parameters {b} after compiling again, {a} for a new model")
    new.set_params(m.get_params())
    new.set_state(m.get_state())
    same_tree(new(x, rng=4, **kw), m(x, rng=4, **kw), "prediction after compiling again")
    expect(new.output_shape == m.output_shape, "output shape after compiling again")
    ctx.mark(True)
    ctx.label(z["d"]["m"])


# ----------------------------------------------------- training after edits
@CHECK.sub("train", st.fixed_dictionaries(dict(
    kind=st.sampled_from(["list", "tuple", "dict"]), items=st.lists(ITEM, min_size=1, max_size=2), i=ITEM, seed=seeds,
    edit=st.sampled_from(["append", "set", "pop", "inner"]), resume=st.booleans())), 24)
def train(c, ctx):
    x = jnp.asarray(data(c["seed"] % 99991, 4))
    y = jnp.asarray(data(c["seed"] % 99991 + 1, 4))
    opt = dict(X_val=x, Y_val=y, batch_size=2, epochs=2, lr=0.01, batch_rng=3, verbose=False)
    items = [Item(dict(c["i"], k="scale")), *[Item(d) for d in c["items"]]]
    w = World(c["kind"], items)
    w.model.train(x, y, **opt)
    if c["edit"] == "append":
        i = Item(c["i"])
        w.model.append(i.m, key="zz")
        w.items.append(i)
    elif c["edit"] == "set":
        i = Item(dict(c["i"], k="scale", a=0.6))
        w.model[w.keys[0] if c["kind"] == "dict" else 0] = i.m
        w.items[0] = i
    elif c["edit"] == "pop":
        w.model.pop_module_by_index(-1)
        w.items.pop()
    else:
        subs = [i for i in w.items if i.kind == "sub"]
        if not subs:
            raise Discard()
        i = Item(dict(c["i"], k="scale"))
        subs[0].m.append(i.m)
        subs[0].inner.append(i)
        w.model.compile(1, (2,))
    # a new model with copies of the modules
    def copy(i):
        if i.kind == "sub":
            return pmm.SequentialModel([copy(j) for j in i.inner])
        if i.kind == "gain":
            return U.Gain(i.a)
        p = i.m.get_params()
        if not len(p):
            return U.Scale(i.a, i.c)
        return U.Scale(float(p[0][0]), float(p[1][0]))

    new = pmm.SequentialModel([copy(i) for i in w.items])
    new.train(x, y, **opt)
    w.model.train(x, y, **opt)
    for a, b in zip(jax.tree.leaves(new.get_params()), jax.tree.leaves(w.model.get_params())):
        close(a, b, 1e-12, 1e-13, f"parameters trained after an edit ({c['edit']})")
    q = jnp.asarray(data(c["seed"] % 99991 + 2, 3))
    close(new(q), w.model(q), 1e-12, 1e-13, "prediction after an edit and training")
    ctx.mark(True)
    ctx.label(c["edit"])


# ---------------------------------------------------- nested containers
@CHECK.sub("paths", st.fixed_dictionaries(dict(
    tree=gen.trees(ITEM.map(lambda d: {"t": "leaf", **d}), max_leaves=5, allow_leaf=False), seed=seeds,
    ops=st.lists(st.fixed_dictionaries(dict(pick=PICK, i=ITEM)), min_size=1, max_size=3))), 50)
def paths(c, ctx):
    """Modules in nested containers, read and replaced by their paths."""
    items = {}

    def make(d, path):
        items[path] = Item(d)
        return items[path].m

    m = pmm.SequentialModel(gen.build(c["tree"], make))
    order = [p for p, _ in gen.leaf_specs(c["tree"])]
    rnd = c["seed"] % 99991
    m.compile(rnd, (2,))
    done = 0
    for k, o in enumerate([None, *c["ops"]]):
        if o is not None:
            p = order[o["pick"] % len(order)]
            new = Item(o["i"])
            inside = m.modules
            for q in p[:-1]:
                inside = inside[q]
            try:
                m[p] = new.m
            except TypeError:
                # tuples cannot be changed in place
                expect(isinstance(inside, tuple), f"could not replace the module at {p}")
                expect(m[p] is items[p].m, f"refused, but the module at {p} changed")
            else:
                items[p] = new
                done += 1
                expect(not m.is_ready(), "still ready after a module was replaced")
            m.compile(rnd, (2,))
        for p in order:
            expect(m[p] is items[p].m, f"module at {p}")
        got = jax.tree.leaves(m.modules)
        expect(len(got) == len(order) and all(a is items[p].m for a, p in zip(got, order)), "modules are in another order")
        x = data(rnd + k, 2)
        close(forward([j for p in order for j in items[p].flat()], x), m(jnp.asarray(x)), 1e-9, 1e-10, f"prediction after {k} replacements")
    ctx.mark(done > 0 and any(len(p) > 1 for p in order))
