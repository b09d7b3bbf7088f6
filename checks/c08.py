"""C08 non-sequential models compute the dataflow graph they are given."""
import contextlib
import io
import jax
import numpy as np
from hypothesis import strategies as st

from pbt import gen, graphs, models
from pbt.core import Check, expect, fail
from pbt.gen import seeds
from pbt.sut import norm_shape, np_tree, pmm, shapes, to_jax

from .c07 import agree

CHECK = Check(
    "C08",
    "random module trees (nested dictionaries, lists, tuples; names close to "
    "the reserved ones; several separators), random acyclic connections "
    "between paths (whole values, subtrees, leaves; implicit, explicit and "
    "partly explicit targets; unused modules; connections in random order); "
    "the oracle interprets the connection strings lazily from the output; "
    "non-trivial: a node or the output has several inputs or a PyTree input",
)


@CHECK.sub("dataflow", st.fixed_dictionaries(dict(
    g=graphs.graphs(), b=st.sampled_from([1, 2, 3]), seed=seeds, box=st.sampled_from(["no", "no", "seq", "ns"]))), 900)
def dataflow(c, ctx):
    g = c["g"]
    m, mods = graphs.build(g)
    if c["box"] == "seq":
        m = pmm.SequentialModel([m])
    elif c["box"] == "ns":
        m = pmm.NonSequentialModel({"m": m}, {"input": "m", "m": "output"})
    with contextlib.redirect_stdout(io.StringIO()):
        m.compile(c["seed"] % 9973, graphs.in_shape(g), verbose=c["seed"] % 3 == 1)
    models.widen(m)
    x = graphs.data(g, c["seed"], c["b"])
    ref = graphs.interpret(g, mods, x)
    out, st1 = m(to_jax(x), return_state=True)
    agree(out, ref, "model output")
    want = norm_shape(shapes(ref))
    for what, s in [("output_shape", m.output_shape), ("get_output_shape", m.get_output_shape(graphs.in_shape(g)))]:
        expect(norm_shape(s) == want, f"{what} is {s!r}, the output has {want!r}")
    # states of counters that ran advance by one
    ids = graphs.ordered_ids(g)
    n = sum(1 for v in jax.tree.leaves(st1) if np.asarray(v).dtype == np.int32 and int(np.asarray(v)[0]) == 1)
    expect(n == sum(g["nodes"][i]["kind"] == "counter" for i in ids),
           "each stateful module on a path to the output runs exactly once")
    agree(m(to_jax(x)), ref, "second evaluation")
    ins = graphs.inputs(g)
    ctx.mark(any(len(v) > 1 for k, v in ins.items()) or not gen.is_leaf(g["in"]))
    ctx.label(g["sep"], c["box"], g["tree"]["t"], *{nd["kind"] for nd in g["nodes"]})


@CHECK.sub("order", st.fixed_dictionaries(dict(
    g=graphs.graphs(max_nodes=4), seed=seeds, perm=seeds)), 120)
def order(c, ctx):
    """With explicit targets the order of the connections does not matter."""
    g = c["g"]
    r = np.random.default_rng(c["perm"])
    # make all targets explicit with the reference's own resolution
    ins = graphs.inputs(g)
    strs = {}
    for k, vs in g["conn"]:
        for v in vs:
            strs.setdefault(graphs.split_path(g, v)[0], []).append(k)
    pre = {"output": ["output"], **{i: p for i, p in enumerate(g["paths"])}}
    edges = []
    for i, lst in ins.items():
        d = graphs.resolve([(t, graphs.Sel(k, ())) for (t, _), k in zip(lst, strs[i])])
        for p, s in gen.flat(d):
            edges.append((s.s, g["sep"].join([*pre[i], *[str(q) for q in p]])))
    outs = []
    x = to_jax(graphs.data(g, c["seed"], 2))
    for k in range(2):
        r.shuffle(edges)
        conn = {}
        for s, t in edges:
            conn.setdefault(s, []).append(t)
        g2 = {**g, "conn": [[k, v] for k, v in conn.items()]}
        m, mods = graphs.build(g2)
        m.compile(3, graphs.in_shape(g))
        models.widen(m)
        out = m(x)
        agree(out, graphs.interpret(g2, mods, np_tree(x)), "model output")
        if "bias" not in {nd["kind"] for nd in g["nodes"]}:
            outs.append(out)
    if outs:
        agree(outs[0], outs[1], "output for another order of the connections")
    ctx.mark(len(edges) > 2)


@CHECK.sub("invalid", st.fixed_dictionaries(dict(
    g=graphs.graphs(max_nodes=4), how=st.sampled_from(
        ["cycle", "self", "noinput", "outkey", "inval", "unknown", "double", "nooutput", "reserved"]),
    pick=seeds)), 160)
def invalid(c, ctx):
    """Graphs that do not describe a computation are rejected by compile."""
    g, how, sep = c["g"], c["how"], c["g"]["sep"]
    r = np.random.default_rng(c["pick"])
    ids = graphs.ordered_ids(g)
    conn = {k: list(v) for k, v in g["conn"]}
    if not ids:
        ctx.label("no modules")
        return
    a = sep.join(g["paths"][ids[r.integers(len(ids))]])
    if how == "self":
        conn.setdefault(a, []).append(a + sep + "9")
    elif how == "cycle":
        # output-side node back into an input-side node
        i, j = r.integers(len(ids)), r.integers(len(ids))
        i, j = min(i, j), max(i, j)
        # is i downstream of j? then i -> j closes a cycle
        ins = graphs.inputs(g)
        up, todo = set(), [ids[i]]
        while todo:
            q = todo.pop()
            for _, (s, _) in ins.get(q, []):
                if s != "input" and s not in up:
                    up.add(s)
                    todo.append(s)
        tgt = sorted(up) or [ids[i]]
        k = sep.join(g["paths"][ids[i]])
        conn.setdefault(k, []).append(sep.join(g["paths"][tgt[0]]))
    elif how == "noinput":
        conn = {k: v for k, v in conn.items() if graphs.split_path(g, k)[0] != "input"}
    elif how == "nooutput":
        conn = {k: [q for q in v if graphs.split_path(g, q)[0] != "output"] for k, v in conn.items()}
        conn = {k: v for k, v in conn.items() if v}
    elif how == "outkey":
        conn["output"] = [a]
    elif how == "inval":
        conn.setdefault(a, []).append("input")
    elif how == "unknown":
        conn.setdefault(a, []).append("nonexistent")
    elif how == "double":
        conn.setdefault(a, []).append("output" + sep + sep + "0")
    g2 = {**g, "conn": [[k, v] for k, v in conn.items()]}
    try:
        if how == "reserved":
            pmm.NonSequentialModel({("input", "output")[c["pick"] % 2]: graphs.make(g["nodes"][0])}, {})
        else:
            m, _ = graphs.build(g2)
            m.compile(0, graphs.in_shape(g))
            m(to_jax(graphs.data(g, 0, 1)))
    except Exception:  # noqa: BLE001
        ctx.mark()
        ctx.label(how)
        return
    fail(f"an invalid graph ({how}) was accepted: {conn}")


KEY = st.sampled_from(["a", "b", "0", "1", "2", "a", "0"])


@CHECK.sub("paths", st.fixed_dictionaries(dict(
    paths=st.lists(st.lists(KEY, max_size=3), min_size=1, max_size=7), sep=st.sampled_from(graphs.SEPS))), 1500)
def paths(c, ctx):
    """Concretized paths extend the given ones, are prefix free, only change
    what is ambiguous, and number the implicit ones in order."""
    from parametricmatrixmodels.graph_util import concretize_paths

    sep = c["sep"]
    given = [sep.join(p) for p in c["paths"]]
    out = concretize_paths(list(given), separator=sep)
    expect(len(out) == len(given), "number of paths changed")
    parts = [tuple(o.split(sep)) if o else () for o in out]
    src = [tuple(p) for p in c["paths"]]
    expect(len(set(parts)) == len(parts), f"{given} -> {out}: not unique")
    for i, p in enumerate(parts):
        for j, q in enumerate(parts):
            expect(i == j or p != q[:len(p)], f"{given} -> {out}: {out[i]!r} is a prefix of {out[j]!r}")
    for i, (p, s) in enumerate(zip(parts, src)):
        expect(p[:len(s)] == s, f"{given[i]!r} became {out[i]!r}")
        amb = any(j != i and q[:len(s)] == s for j, q in enumerate(src))
        if not amb:
            expect(p == s, f"unambiguous {given[i]!r} became {out[i]!r} in {given}")
    # values sharing one path, no other path below: indices in order
    for s in set(src):
        same = [i for i, q in enumerate(src) if q == s]
        below = {q[len(s)] for q in src if len(q) > len(s) and q[:len(s)] == s}
        if len(same) > 1 or below:
            if all(k.isdigit() for k in below):
                free = iter(k for k in range(20) if str(k) not in below)
                want = [s + (str(next(free)),) for _ in same]
                expect([parts[i][:len(s) + 1] for i in same] == want,
                       f"{given} -> {out}: implicit {s} should be {want}")
            else:
                expect(all(parts[i][len(s)] not in below for i in same), f"{given} -> {out}: key reused")
    ctx.mark(len(set(src)) < len(src) or any(p != s for p, s in zip(parts, src)))


@CHECK.sub("topological", st.fixed_dictionaries(dict(
    n=st.integers(0, 7), edges=st.lists(st.tuples(st.integers(0, 8), st.integers(0, 8)), max_size=18),
    dag=st.booleans(), perm=seeds)), 2000)
def topological(c, ctx):
    """Execution orders: exactly the nodes on paths from input to output, each
    after everything it needs; impossible orders are rejected."""
    from parametricmatrixmodels.graph_util import resolve_connections

    n = c["n"]
    name = {0: "input", n + 1: "output", **{i: f"m{i}" for i in range(1, n + 1)}}
    e = set()
    for a, b in c["edges"]:
        a, b = a % (n + 2), b % (n + 2)
        if c["dag"]:
            a, b = min(a, b), max(a, b)
            if a == b:
                continue
        if a != n + 1 and b != 0:
            e.add((a, b))
    e = sorted(e)
    r = np.random.default_rng(c["perm"])
    r.shuffle(e)
    graph = {}
    for a, b in e:
        graph.setdefault(name[a], []).append(name[b])

    def reach(s, fwd):
        seen, todo = set(), [s]
        while todo:
            q = todo.pop()
            if q not in seen:
                seen.add(q)
                todo += [(b if fwd else a) for a, b in e if (a if fwd else b) == q]
        return seen

    on = reach(0, True) & reach(n + 1, False)
    inner = [(a, b) for a, b in e if a in on and b in on]
    foreign = any(b in on and a not in on for a, b in e)
    # acyclic?
    left, ok = set(on), True
    while left and ok:
        src = {v for v in left if not any(b == v and a in left for a, b in inner)}
        ok = bool(src)
        left -= src
    connected = n + 1 in reach(0, True)
    try:
        got, _ = resolve_connections(graph)
    except Exception as ex:  # noqa: BLE001
        if ok and connected and not foreign:
            fail(f"valid graph rejected: {graph}: {ex}")
        ctx.mark()
        ctx.label("rejected")
        return
    expect(ok, f"cyclic graph accepted: {graph} -> {got}")
    expect(connected, f"the output is not reachable, but {got} is returned for {graph}")
    expect(not foreign, f"a needed node does not depend on the input, but {got} is returned for {graph}")
    expect(sorted(got) == sorted(name[v] for v in on), f"{graph}: order {got} does not consist of {sorted(name[v] for v in on)}")
    pos = {v: i for i, v in enumerate(got)}
    for a, b in inner:
        expect(pos[name[a]] < pos[name[b]], f"{graph}: {name[b]} runs before {name[a]} in {got}")
    ctx.mark(len(on) > 3)
    ctx.label("ordered")
