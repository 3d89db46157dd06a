"""Pictures of rules. A stand-in for the graphviz package records every node,
edge and attribute the drawing classes ask for; the recorded picture is read
back as a tree or graph and compared with the exported rule it was made from."""

import copy
import json
import sys
import types

import numpy as np
import pylib


class Picture:
    made = []

    def __init__(self, name=None, comment=None, filename=None, **kw):
        self.name, self.filename = name, filename if filename is not None else kw.get("filename")
        self.nodes, self.edge_list, self.attrs, self.shown = {}, [], dict(kw.get("graph_attr") or {}), 0
        Picture.made.append(self)

    def node(self, name, label=None, _attributes=None, **attrs):
        n = self.nodes.setdefault(name, {})
        n.update(_attributes or {})
        n.update(attrs)
        if label is not None:
            n["label"] = label

    def edge(self, tail_name, head_name, label=None, _attributes=None, **attrs):
        for n in (tail_name, head_name):
            self.nodes.setdefault(n, {})
        self.edge_list.append((tail_name, head_name))

    def edges(self, tail_head_iter):
        for t, h in tail_head_iter:
            self.edge(t, h)

    def attr(self, kw=None, _attributes=None, **attrs):
        if kw in (None, "graph"):
            self.attrs.update(_attributes or {})
            self.attrs.update(attrs)

    def view(self, *a, **k):
        self.shown += 1

    def save(self, *a, **k):
        pass

    def render(self, *a, **k):
        self.shown += 1


class Graph(Picture):
    directed = False


class Digraph(Picture):
    directed = True


stub = types.ModuleType("graphviz")
stub.Graph, stub.Digraph = Graph, Digraph
sys.modules["graphviz"] = stub

import xcsf  # noqa: E402
from xcsf.utils import viz  # noqa: E402


def parse(tokens):
    """The exported expression as nested tuples (independent of the drawing)."""
    stack, out = [], []
    for t in tokens:
        if t == "(":
            stack.append(out)
            out = []
        elif t == ")":
            a, op, b = out
            out = stack.pop()
            out.append((op, a, b))
        else:
            out.append(t)
    assert len(out) == 1 and not stack
    return out[0]


def drawn(pic):
    """The recorded picture as nested tuples."""
    kids, heads = {}, set()
    for t, h in pic.edge_list:
        kids.setdefault(t, []).append(h)
        if h in heads:
            return f"node {h} has two parents"
        heads.add(h)
    roots = [n for n in pic.nodes if n not in heads]
    if len(roots) != 1:
        return f"{len(roots)} roots"
    # iterative post-order: trees may be deep
    val, todo, seen = {}, [(roots[0], False)], 0
    while todo:
        n, done = todo.pop()
        if done:
            k = kids.get(n, [])
            val[n] = (pic.nodes[n].get("label", n), *[val[c] for c in k]) if k else pic.nodes[n].get("label", n)
        else:
            seen += 1
            if seen > len(pic.nodes):
                return "a cycle"
            todo.append((n, True))
            todo += [(c, False) for c in kids.get(n, [])]
    if seen != len(pic.nodes):
        return f"{len(pic.nodes) - seen} nodes apart from the tree"
    return val[roots[0]]


def label_ok(label, sym, names):
    if isinstance(sym, str):
        if names is not None and sym.startswith("feature_"):
            k = int(sym[8:])
            if k < len(names):
                return label == names[k]
        return label == sym
    try:
        v = float(label)
    except ValueError:
        return False
    return abs(v - sym) <= 1e-4 + 1e-4 * abs(sym)


def same_tree(a, b, names):
    """a drawn, b exported; returns a description of the first difference."""
    todo = [(a, b)]
    while todo:
        x, y = todo.pop()
        if isinstance(y, tuple) != isinstance(x, tuple):
            return f"drawn {str(x)[:80]} where the rule has {str(y)[:80]}"
        if isinstance(y, tuple):
            if len(x) != 3 or x[0] != y[0]:
                return f"drawn node {x[0]} with {len(x) - 1} operands where the rule has {y[0]} with 2"
            todo += [(x[1], y[1]), (x[2], y[2])]
        elif not label_ok(x, y, names):
            return f"drawn leaf {x!r} where the rule has {y!r}"
    return ""


def random_tokens(r, depth, n_feat):
    if depth == 0 or r.random() < 0.15:
        return [f"feature_{r.randrange(n_feat)}" if r.random() < 0.6 else r.choice([r.uniform(-1, 1), 0, 1, -1, r.uniform(-1e3, 1e3), 0.5])]
    bias = r.random()
    a = random_tokens(r, depth - 1 if bias < 0.8 else r.randrange(depth), n_feat)
    b = random_tokens(r, depth - 1 if bias > 0.2 else r.randrange(depth), n_feat)
    return ["(", *a, r.choice("+-*/"), *b, ")"]


def chain(r, n, n_feat):
    """A long one-sided tree."""
    t = [f"feature_{r.randrange(n_feat)}"]
    left = r.random() < 0.5
    for _ in range(n):
        leaf = [f"feature_{r.randrange(n_feat)}" if r.random() < 0.7 else r.uniform(-1, 1)]
        t = ["(", *(t if left else leaf), r.choice("+-*/"), *(leaf if left else t), ")"]
    return t


def random_graph(r, n_feat):
    n, k = r.choice([r.randint(1, 8), r.randint(9, 60)]), r.randint(1, 5)
    return {"n": n, "t": r.randint(1, 9), "n_inputs": n_feat, "functions": [r.choice(["Fuzzy NOT", "Fuzzy AND", "Fuzzy OR"]) for _ in range(n)],
            "connectivity": [r.randrange(n_feat + n) for _ in range(n * k)]}


def feature_names(r, n):
    k = r.random()
    if k < 0.4:
        return None
    m = n if k < 0.85 else r.randint(0, n)  # names for the first features only
    return [r.choice(["sepal", "x", "Body Mass Index", "petal_width", "(", "a_b_c", "feature", "π"]) + str(i) for i in range(m)]


def common(ctx, pic, fname, note, kind):
    ctx.check(pic.shown == 1, "shown", f"the picture of a {kind} was shown {pic.shown} times")
    ctx.check(str(pic.filename) == fname + ".gv", "file", f"the picture of a {kind} goes to {pic.filename!r} where {fname!r} was asked for")
    if note is not None:
        ctx.check(note in str(pic.attrs.get("label", "")), "note", f"the note {note!r} is not on the picture of a {kind}: {pic.attrs}")


def draw(ctx, cls, arg, names, note, fname):
    before, nb = copy.deepcopy(arg), copy.deepcopy(names)
    Picture.made.clear()
    kw = {}
    if note is not None or ctx.rng.random() < 0.3:
        kw["note"] = note
    if names is not None or ctx.rng.random() < 0.3:
        kw["feature_names"] = names
    cls(arg, fname, **kw)
    ctx.check(arg == before and names == nb, "arguments", "drawing altered the exported rule or the feature names")
    if not ctx.check(len(Picture.made) == 1, "pictures", f"{len(Picture.made)} pictures were made"):
        return None
    return Picture.made[0]


def judge_tree(ctx, tokens, n_feat):
    r = ctx.rng
    names, note = feature_names(r, n_feat), r.choice([None, "a note", "fitness=0.5\nerror=1"])
    fname = r.choice(["best", "out/tree 1", "x.y"])
    pic = draw(ctx, viz.TreeViz, tokens, names, note, fname)
    if pic is None:
        return
    common(ctx, pic, fname, note, "tree")
    d = drawn(pic)
    bad = d if isinstance(d, str) and pic.edge_list else same_tree(d, parse(tokens), names)
    ctx.check(not bad, "tree", lambda: f"the picture is not the rule's tree: {bad}; tree {tokens}; names {names}; edges {pic.edge_list}; nodes {pic.nodes}")
    ctx.count("trees")
    ctx.count("tree_nodes", len(pic.nodes))
    if names is not None:
        ctx.count("named_pictures")
    ctx.distinct("t", tokens)
    ctx.sample(f"tree of {len(pic.nodes)} nodes, names {names}: {' '.join(map(str, tokens))[:200]}")


def judge_graph(ctx, graph):
    r = ctx.rng
    n, n_in = graph["n"], graph["n_inputs"]
    k = len(graph["connectivity"]) // n
    names, note = feature_names(r, n_in), r.choice([None, "a note"])
    fname = r.choice(["best", "g"])
    pic = draw(ctx, viz.DGPViz, graph, names, note, fname)
    if pic is None:
        return
    common(ctx, pic, fname, note, "graph")
    want_edges, used = [], set()
    for i in range(n):
        for j in range(1 if graph["functions"][i] == "Fuzzy NOT" else k):
            s = graph["connectivity"][i * k + j]
            if s < n_in:
                used.add(s)
            want_edges.append((f"feature_{s}" if s < n_in else s - n_in, i))
    # match drawn names to nodes by label for inputs, by name for graph nodes
    missing = [i for i in range(n) if str(i) not in pic.nodes]
    ctx.check(not missing, "nodes", lambda: f"nodes {missing} of the graph are not drawn: {graph}; {pic.nodes}")
    if not missing:
        wrong = [i for i in range(n) if pic.nodes[str(i)].get("label") != graph["functions"][i]]
        ctx.check(not wrong, "functions", lambda: f"nodes {wrong} are drawn with another function: {graph}; {pic.nodes}")
        filled = [i for i in range(n) if "filled" in str(pic.nodes[str(i)].get("style", ""))]
        ctx.check(filled == [0], "match_node", lambda: f"shaded nodes {filled}, the match node is 0: {graph}")
    others = [x for x in pic.nodes if x not in {str(i) for i in range(n)}]
    ctx.check(len(others) == len(used), "inputs", lambda: f"{len(others)} inputs are drawn, {len(used)} are used: {graph}; {pic.nodes}")
    for s in used:
        nd = pic.nodes.get(f"feature_{s}", {})
        ctx.check(label_ok(nd.get("label"), f"feature_{s}", names), "input_label", lambda: f"input {s} is labelled {nd.get('label')!r}; names {names}")
    got = sorted((str(t), str(h)) for t, h in pic.edge_list)
    want = sorted((str(t), str(h)) for t, h in want_edges)
    ctx.check(got == want, "edges", lambda: f"drawn connections {got} are not the graph's {want}: {graph}")
    text = str(pic.attrs.get("label", ""))
    ctx.check(f"N = {n}" in text and f"T = {graph['t']}" in text, "caption", lambda: f"caption {text!r} for {n} nodes and {graph['t']} cycles")
    ctx.count("graphs")
    ctx.count("connections", len(pic.edge_list))
    ctx.distinct("g", json.dumps(graph, sort_keys=True))


def run_case(ctx):
    r = ctx.rng
    sys.setrecursionlimit(20000)
    k = ctx.idx % 4
    if k == 0:
        for _ in range(6):
            n = r.choice([1, 3, 12, 150])
            judge_tree(ctx, chain(r, r.randint(20, 200), n) if r.random() < 0.2 else random_tokens(r, r.randint(0, 8), n), n)
    elif k == 1:
        for _ in range(6):
            judge_graph(ctx, random_graph(r, r.choice([1, 3, 12, 150])))
    else:  # rules of a trained system
        p, info = pylib.params(r, conds=[r.choice(["tree_gp"] if k == 2 else ["dgp", "rule_dgp"])], preds=["constant", "nlms_linear"], n_actions=r.choice([1, 1, 2, 3]))
        s = xcsf.XCS(**p)
        m = r.randint(2, 20)
        X = pylib.inputs(ctx.np, m, p, info)
        if p["n_actions"] > 1:
            for i in range(m):
                s.fit(X[i], r.randrange(p["n_actions"]), r.random())
        else:
            s.fit(X, pylib.targets(ctx.np, m, p), shuffle=True, warm_start=False, verbose=False)
        cls = json.loads(s.json())["classifiers"]
        for c in r.sample(cls, min(len(cls), 6)):
            if k == 2:
                judge_tree(ctx, c["condition"]["tree"]["array"], p["x_dim"])
            else:
                judge_graph(ctx, c["condition"]["graph"])
            ctx.count("trained_rules")


pylib.main(lambda thorough: 40000 if thorough else 3000, run_case)
