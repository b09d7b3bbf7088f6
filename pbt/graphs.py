"""Random non-sequential models: a tree of modules, and connections between
paths into their inputs and outputs; with a reference interpreter that works
on the connection strings alone (lazily, from the output backwards).
All arrays have feature shape (2,)."""
import jax
import numpy as np
from hypothesis import strategies as st

from . import gen
from . import usermods as U
from .sut import M, pmm

L = {"t": "leaf"}


def lst(*c):
    return {"t": "list", "c": list(c)}


def dct(**k):
    return {"t": "dict", "k": list(k), "c": list(k.values())}


SHAPES = {
    "mix": lambda s: L,
    "dict2": lambda s: dct(b=L, a=L),
    "list2": lambda s: lst(L, L),
    "tuple2": lambda s: {"t": "tuple", "c": [L, L]},
    "nest": lambda s: dct(p=lst(L, L), q=L),
    "map": lambda s: s,
    "counter": lambda s: s,
    "bias": lambda s: s,
    "sub": lambda s: s,
    "subns": lambda s: dct(u=s, v=s),
}
KINDS = ["mix", "map", "dict2", "list2", "nest", "tuple2", "map", "counter", "bias", "sub", "subns", "mix"]


class Fan(U._User):
    """A weighted, position-dependent combination of all leaves of the input,
    returned in a given structure; one trainable number."""

    def __init__(self, kind="mix", seed=0):
        self.kind, self.seed, self.w = kind, seed, None

    def is_ready(self):
        return self.w is not None

    def compile(self, rng, input_shape):
        if self.w is None:
            self.w = jax.numpy.asarray([0.5 + (self.seed % 11) / 10])

    def get_output_shape(self, input_shape):
        return gen.build(SHAPES[self.kind](None), lambda s, p: (2,))

    def _get_callable(self):
        kind = self.kind

        def f(params, data, training, state, rng):
            return fan(kind, params, data), state

        return f

    def get_hyperparameters(self):
        return {"kind": self.kind, "seed": self.seed}

    def get_params(self):
        return () if self.w is None else self.w

    def set_params(self, params):
        self.w = None if isinstance(params, tuple) else params


def fan(kind, w, data):
    x = 0
    for i, (p, v) in enumerate(gen.flat(data)):
        x = x + (i + 1) * v + 0.1 * (i + 2) * v * v
    x = w[0] * x / 4
    n = [0]

    def mk(s, p):
        n[0] += 1
        return x * n[0] + 0.01 * n[0]

    return gen.build(SHAPES[kind](None), mk)


def make(nd):
    k, s = nd["kind"], nd["seed"]
    sc = lambda i: U.Scale(0.4 + ((s + i) % 7) / 10, ((s + 2 * i) % 5) / 20)  # noqa: E731
    if k in ("mix", "dict2", "list2", "tuple2", "nest"):
        return Fan(k, s)
    if k == "map":
        return sc(0)
    if k == "counter":
        return U.Counter(0.25)
    if k == "bias":
        return M.Bias(init_magnitude=0.5)
    if k == "sub":
        return pmm.SequentialModel([sc(0), sc(1)])
    if k == "subns":
        return pmm.NonSequentialModel(
            {"A": sc(0), "B": sc(1)},
            {"input": "A", "A": ["B", "output.u"], "B": "output.v"})
    raise KeyError(k)


def ref_call(nd, mod, data):
    """What the module computes, in numpy, from its public parameters."""
    k = nd["kind"]

    def scale(m, d):
        a, c = [np.asarray(v, dtype=np.float64) for v in m.get_params()]
        return gen.tmap(lambda x: a * x + c * x * x, d)

    if k in ("mix", "dict2", "list2", "tuple2", "nest"):
        return fan(k, np.asarray(mod.get_params(), dtype=np.float64), data)
    if k == "map":
        return scale(mod, data)
    if k == "counter":
        n = float(np.asarray(mod.get_state()["n"])[0])
        return gen.tmap(lambda x: x + 0.25 * n, data)
    if k == "bias":
        return gen.tmap(lambda x, b: x + np.asarray(b), data, mod.get_params())
    if k == "sub":
        return scale(mod.modules[1], scale(mod.modules[0], data))
    if k == "subns":
        u = scale(mod.modules["A"], data)
        return {"u": u, "v": scale(mod.modules["B"], u)}
    raise KeyError(k)


# -------------------------------------------------------------- generation
NAMES = ["M1", "A", "inputs", "output_layer", "enc", "input2", "outputs", "z", "M10", "0x", "dec", "in", "out",
         # begin with a part of a separator
         "_m", ">n", "t0", ":c"]
SEPS = [".", ".", ".", ".", "/", "::", "->", "__", " to "]


def node_paths(t, path=()):
    """All positions in a structure spec, root included."""
    out = [path]
    if not gen.is_leaf(t):
        ks = t["k"] if t["t"] == "dict" else [str(i) for i in range(len(t["c"]))]
        for k, c in zip(ks, t["c"]):
            out += node_paths(c, path + (k,))
    return out


def sub(t, path):
    for k in path:
        if t["t"] == "dict":
            t = t["c"][t["k"].index(k)]
        else:
            t = t["c"][int(k)]
    return t


def resolve(items, isval=lambda v: True):
    """The structure that (path, value) pairs describe: a value alone at its
    path is that value; values sharing a path get the free list indices in
    order; integer keys make lists, others dictionaries."""
    if len(items) == 1 and items[0][0] == ():
        return items[0][1]
    taken = {p[0] for p, _ in items if p}
    assert all(k.isdigit() for k in taken) or all(p for p, _ in items)
    free = iter(i for i in range(len(items) + len(taken)) if str(i) not in taken)
    groups = {}
    for p, v in items:
        k = p[0] if p else str(next(free))
        groups.setdefault(k, []).append((p[1:], v))
    if all(k.isdigit() for k in groups):
        return [resolve(groups[str(i)]) for i in range(len(groups))]
    return {k: resolve(g) for k, g in groups.items()}


def spec_of(x):
    """structure of nested python containers of specs ({'t':..} are specs)."""
    if isinstance(x, dict) and "t" in x:
        return x
    if isinstance(x, list):
        return {"t": "list", "c": [spec_of(v) for v in x]}
    return {"t": "dict", "k": list(x), "c": [spec_of(v) for v in x.values()]}


@st.composite
def targets(draw, k, weird=True):
    """k target paths below a node, that together make a complete input."""
    if k == 1:
        how = draw(st.sampled_from(["bare", "bare", "bare", "key", "index"]))
        return [{"bare": [], "key": ["k"], "index": ["0"]}[how]]
    how = draw(st.sampled_from(["impl", "list", "dict", "nest", "implnest", "partial", "partial2"]))
    idx = [[str(i)] for i in range(k)]
    if how == "impl":
        out = [[] for _ in range(k)]
    elif how == "list":
        out = draw(st.permutations(idx))
    elif how == "dict":
        out = [[n] for n in draw(st.permutations(draw(st.sampled_from([["x", "y", "b10", "b9"], ["_x", "x", "y", "b9"], ["tx", "_0", ">", "o"]]))[:k]))]
    elif how == "nest":
        out = [["g", *p] for p in idx[:-1]] + [["h"]]
        if k == 2:
            out = [["g", "0"], ["h"]]
        out = draw(st.permutations(out))
    elif how == "implnest":
        out = draw(st.permutations([["g"] for _ in range(k - 1)] + [["h"]]))
    elif how == "partial":
        j = draw(st.integers(0, k - 1))
        out = draw(st.permutations([[str(i)] if i == j else [] for i in range(k)]))
    else:
        j = draw(st.integers(0, k - 2))
        # two at the same explicit index, the rest implicit
        out = draw(st.permutations([[str(j)], [str(j)]] + [[] for _ in range(k - 2)]))
        if j > k - 2 or (j > 0 and k - 2 < j):
            out = idx
    return [list(p) for p in out]


def in_spec():
    leafs = gen.leaf_of()
    return st.one_of(
        st.just(L), st.just(L),
        gen.trees(leafs, max_leaves=3, depth=2, keys=["a", "b", "x1", "x2", "_p", "o"], allow_leaf=False))


@st.composite
def graphs(draw, max_nodes=5, kinds=None):
    sep = draw(st.sampled_from(SEPS))
    n = draw(st.integers(1, max_nodes))
    extra = draw(st.sampled_from([0, 0, 1]))
    # module tree
    names = draw(st.permutations(NAMES))
    top = draw(st.sampled_from(["dict", "list", "dict", "tuple"]))
    # positions: nested blocks
    paths = []
    tot = n + extra
    blocks = []
    left = tot
    while left:
        sz = min(left, draw(st.sampled_from([1, 1, 2, 3])))
        kind = draw(st.sampled_from(["bare", "dict", "list", "tuple"])) if sz == 1 else draw(
            st.sampled_from(["dict", "list", "tuple"]))
        blocks.append((kind, sz))
        left -= sz
    tree = {"t": top, "c": []}
    if top == "dict":
        tree["k"] = []
    it = iter(range(tot))
    nm = iter(names)
    for bi, (kind, sz) in enumerate(blocks):
        key = next(nm) if top == "dict" else str(bi)
        if top == "dict":
            tree["k"].append(key)
        if kind == "bare":
            i = next(it)
            tree["c"].append({"t": "leaf", "id": i})
            paths.append([key])
        else:
            b = {"t": kind, "c": []}
            if kind == "dict":
                b["k"] = [["input", "o", "10", "2", "output", "b"][(bi + j) % 6] for j in range(sz)]
            for j in range(sz):
                i = next(it)
                b["c"].append({"t": "leaf", "id": i})
                paths.append([key, b["k"][j] if kind == "dict" else str(j)])
            tree["c"].append(b)
    order = draw(st.permutations(range(tot)))
    used = order[:n]
    ispec = draw(in_spec())
    nodes = {}
    outs = {"input": ispec}
    edges = []
    avail = ["input"]
    for i in list(used) + ["output"]:
        k = draw(st.sampled_from([1, 2, 1, 3]))
        # always use the last node, so that most nodes matter
        srcs = []
        for j in range(k):
            s = avail[-1] if j == 0 and draw(st.integers(0, 3)) else draw(st.sampled_from(avail))
            p = draw(st.sampled_from(node_paths(outs[s])))
            srcs.append((s, p))
        tg = draw(targets(k))
        for (s, p), t in zip(srcs, tg):
            sp = (["input"] if s == "input" else paths[s]) + list(p)
            tp = (["output"] if i == "output" else paths[i]) + t
            edges.append([sep.join(sp), sep.join(tp)])
        if i == "output":
            break
        # the order within implicit targets is fixed by the connections; the
        # structure is not, so infer it here
        insp = spec_of(resolve([(tuple(t), sub(outs[s], p)) for (s, p), t in zip(srcs, tg)]))
        if (any(not t for t in tg) or any(tg.count(t) > 1 for t in tg)) and len({str(sub(outs[s], p)) for s, p in srcs}) > 1:
            kind = draw(st.sampled_from(["mix", "dict2", "list2", "nest"]))
        else:
            kind = draw(st.sampled_from(kinds or KINDS))
        if len(node_paths(insp)) > 8:
            kind = "mix"
        nodes[i] = {"kind": kind, "seed": draw(st.integers(0, 99))}
        outs[i] = SHAPES[kind](insp)
        avail.append(i)
    for i in order[n:]:
        nodes[i] = {"kind": draw(st.sampled_from(["mix", "map", "counter", "bias"])), "seed": 0}
        if draw(st.booleans()):
            # a module nothing depends on
            s = draw(st.sampled_from(avail))
            edges.append([sep.join(["input"] if s == "input" else paths[s]), sep.join(paths[i])])
    edges = draw(st.permutations(edges))
    conn = {}
    for s, t in edges:
        conn.setdefault(s, []).append(t)
    form = draw(st.sampled_from(["list", "tuple", "str"]))
    return {"in": ispec, "tree": tree, "nodes": [nodes[i] for i in range(tot)], "paths": paths,
            "conn": [[k, v] for k, v in conn.items()], "form": form, "sep": sep}


# ------------------------------------------------------------- using a case
def conn_dict(g):
    out = {}
    for k, v in g["conn"]:
        if len(v) == 1 and g["form"] == "str":
            out[k] = v[0]
        else:
            out[k] = tuple(v) if g["form"] == "tuple" else list(v)
    return out


def build(g):
    """(model, modules by id), not compiled."""
    mods = [make(nd) for nd in g["nodes"]]
    tree = gen.build(g["tree"], lambda s, p: mods[s["id"]])
    return pmm.NonSequentialModel(tree, conn_dict(g), separator=g["sep"]), mods


def in_shape(g):
    return gen.build(g["in"], lambda s, p: (2,))


def data(g, seed, b):
    n = [0]

    def mk(s, p):
        n[0] += 1
        return 0.5 * gen.arr(seed + n[0], (b, 2))

    return gen.build(g["in"], mk)


def split_path(g, s):
    """(node id | 'input' | 'output', remaining path)"""
    parts = tuple(s.split(g["sep"]))
    if parts[0] in ("input", "output"):
        return parts[0], parts[1:]
    for i, p in enumerate(g["paths"]):
        if parts[:len(p)] == tuple(p):
            return i, parts[len(p):]
    raise AssertionError(s)


def ordered_ids(g):
    """ids of the modules the output depends on."""
    seen, todo = [], ["output"]
    ins = inputs(g)
    while todo:
        i = todo.pop()
        if i in seen or i == "input":
            continue
        seen.append(i)
        todo += [s for _, (s, _) in ins[i]]
    return [i for i in seen if i != "output"]


def inputs(g):
    ins = {}
    for k, vs in g["conn"]:
        s = split_path(g, k)
        for v in vs:
            i, t = split_path(g, v)
            ins.setdefault(i, []).append((t, s))
    return ins


class Sel:
    def __init__(self, s, p):
        self.s, self.p = s, p


def interpret(g, mods, x):
    """Reference: value of the output, and of every node on the way."""
    ins = inputs(g)
    memo = {"input": x}

    def value(i):
        if i not in memo:
            d = resolve([(t, Sel(s, p)) for t, (s, p) in ins[i]])
            d = gen.tmap(lambda q: pick(value(q.s), q.p), d)
            memo[i] = d if i == "output" else ref_call(g["nodes"][i], mods[i], d)
        return memo[i]

    return value("output")


def pick(v, path):
    for k in path:
        v = v[k] if isinstance(v, dict) else v[int(k)]
    return v
