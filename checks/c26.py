"""C26: graph and data-flow models, their exports, dashboards and controls."""
import contextlib
import html.parser
import io
import json
import os
import re
import tempfile
import types
import warnings
from unittest import mock

os.environ.setdefault("MPLBACKEND", "Agg")

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from harness import Registry
from run import key

R = Registry(
    "C26",
    rule="several nodes with edges (or events of several modules, some of them filtered out or dropped) are described",
    assumptions=[
        "networkx, plotly, bokeh, flask and the dot program are not installed: only the DOT, HTML, text, JSON and "
        "matplotlib exports are judged; the web routes and events of the dashboard are called through a stand-in for flask",
    ],
)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ---------------------------------------------------------------- DOT reader
TOKEN = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(->)|([\[\]{};,=])|([A-Za-z0-9_.#\-\u0080-\uffff]+))', re.S)


def unescape(s):
    """The text of a DOT string: escaped quotes and backslashes, \\n as newline."""
    return re.sub(r"\\(.)", lambda m: {"n": "\n"}.get(m.group(1), m.group(1)), s[1:-1], flags=re.S) if s[:1] == '"' else s


def read_dot(text):
    toks, i = [], 0
    text = text.rstrip()
    while i < len(text):
        m = TOKEN.match(text, i)
        assert m and m.end() > i, f"malformed DOT at {text[i:i + 60]!r}"
        toks.append(next(g for g in m.groups() if g is not None))
        i = m.end()
    nodes, edges, pos = [], [], [0]

    def peek(k=0):
        return toks[pos[0] + k] if pos[0] + k < len(toks) else None

    def take(want=None):
        t = peek()
        assert t is not None and (want is None or t == want), f"malformed DOT: {want} expected, found {t!r}"
        pos[0] += 1
        return t

    def attrs():
        out = {}
        if peek() == "[":
            take()
            while peek() != "]":
                k = unescape(take())
                take("=")
                out[k] = unescape(take())
                if peek() == ",":
                    take()
            take("]")
        return out

    def block(path):
        take("{")
        while peek() != "}":
            t = take()
            if t == "subgraph":
                block(path + [unescape(take())])
            elif peek() == "->":
                take()
                dst = take()
                edges.append((unescape(t), unescape(dst), attrs()))
            elif peek() == "=":
                take()
                take()
            else:
                a = attrs()
                if t not in ("node", "edge", "graph"):
                    assert t not in "[]{};,=", f"malformed DOT: statement starts with {t!r}"
                    nodes.append((unescape(t), a, tuple(path)))
            if peek() == ";":
                take()
        take("}")

    take("digraph")
    if peek() != "{":
        take()
    block([])
    assert pos[0] == len(toks), "malformed DOT: content after the graph"
    return nodes, edges


class Divs(html.parser.HTMLParser):
    """Texts of the div elements of a class, tags inside ignored."""

    def __init__(self):
        super().__init__()
        self.out, self.stack, self.unknown = [], [], []

    def handle_starttag(self, tag, attrs):
        if tag == "br" or tag == "meta":
            if self.out and self.stack and self.stack[-1][1]:
                self.out[-1][1] += " "
            return
        if tag not in ("html", "head", "title", "style", "body", "h1", "h2", "div", "strong"):
            self.unknown.append(tag)
        cls = dict(attrs).get("class")
        self.stack.append((tag, cls or (self.stack[-1][1] if self.stack else None)))
        if cls:
            self.out.append([cls, ""])

    def handle_endtag(self, tag):
        while self.stack and self.stack.pop()[0] != tag:
            pass

    def handle_data(self, data):
        if self.stack and self.stack[-1][1] and self.out:
            self.out[-1][1] += data


def norm(s):
    return " ".join(str(s).split())


# ---------------------------------------------------------------- graph model
NAME = st.one_of(
    st.sampled_from(["main", "<lambda>", "ewma_0", "Buffer", "a.b", "state machine", "very_long_name_of_a_module_0"]),
    st.text(alphabet='abEW_0 ."\\<>&\'{}|;-=[]/é', min_size=1, max_size=26).filter(lambda s: s.strip() == s),
)
SHAPES = st.dictionaries(st.sampled_from(["input", "x y", "<s>"]), st.lists(st.integers(0, 5), max_size=3), max_size=2)
PARAMS = st.dictionaries(
    st.sampled_from(["alpha", "maxlen", "mode", "extra", "note"]),
    st.one_of(st.integers(-3, 9), st.sampled_from(['say "hi"', "a<b", "shape=(2,)"])),
    max_size=5,
)
TYPES = ["EWMA", "Buffer", "Function", "Dense", "StreamingDebugger", "My<T>", "main"]


@st.composite
def GRAPH(draw):
    ids = draw(st.lists(NAME, min_size=1, max_size=7, unique=True))
    ops = []
    for i in ids:
        ops.append(["node", i, draw(st.one_of(st.just(i), NAME)), draw(st.sampled_from(TYPES)), draw(SHAPES), draw(PARAMS)])
    for _ in range(draw(st.integers(0, 8))):
        ops.append([
            "edge", draw(st.sampled_from(ids)), draw(st.sampled_from(ids)),
            draw(st.sampled_from(["", "module", 'a "b"', "x<y", "data\\flow"])),
            draw(st.sampled_from(["#424242", "#ff0000"])), draw(st.sampled_from(["solid", "dashed"])),
        ])
    if draw(st.booleans()):
        i = draw(st.sampled_from(ids))
        ops.append(["node", i, draw(NAME), draw(st.sampled_from(TYPES)), {}, {}])
    return dict(
        ops=draw(st.permutations(ops)) if draw(st.booleans()) else ops,
        shapes=draw(st.booleans()), params=draw(st.booleans()), maxlen=draw(st.sampled_from([1, 5, 20, 20])),
    )


def build(c, fmt):
    from wax.flax.visualization.computation_graph import ComputationGraphRenderer, PipelineEdge, PipelineNode

    r = ComputationGraphRenderer(
        output_format=fmt, include_shapes=c["shapes"], include_parameters=c["params"], max_label_length=c["maxlen"]
    )
    nodes, edges = {}, []
    for o in c["ops"]:
        if o[0] == "node":
            shapes = {k: tuple(v) for k, v in o[4].items()}
            n = PipelineNode(id=o[1], name=o[2], module_type=o[3], input_shapes=shapes, parameters=dict(o[5]))
            assert r.add_node(n) is r
            nodes[o[1]] = (o, shapes, n.color)
        else:
            assert r.add_edge(PipelineEdge(source=o[1], target=o[2], label=o[3], color=o[4], style=o[5])) is r
            edges.append(o)
    assert list(r.nodes) == list(nodes) and all(r.nodes[i].name == nodes[i][0][2] for i in nodes), "nodes of the model"
    assert [(e.source, e.target, e.label) for e in r.edges] == [tuple(o[1:4]) for o in edges], "edges of the model"
    return r, nodes, edges


def rendered(r):
    """The content returned without a path is the content of the file written with one."""
    text = r.render()
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "out.txt")
        assert r.render(p) == p
        with open(p, newline="") as f:
            assert f.read() == text, "file content differs from the returned content"
    return text


def interesting(nodes, edges):
    return "several nodes with edges" if len(nodes) > 2 and edges else None


@R.facet("dot-export", GRAPH(), quick=600, thorough=15000, weight=2)
def dot_export(c):
    r, nodes, edges = build(c, "dot")
    got_nodes, got_edges = read_dot(rendered(r))
    assert [n[0] for n in got_nodes] == list(nodes), (got_nodes, list(nodes))
    for (i, a, _), (o, shapes, color) in zip(got_nodes, nodes.values()):
        name = o[2] if len(o[2]) <= c["maxlen"] else o[2][: c["maxlen"]] + "..."
        want = [name] + ([f"({o[3]})"] if o[3] != o[2] else [])
        if c["shapes"]:
            want += [f"{k}: {s}" for k, s in shapes.items() if s]
        if c["params"]:
            want += [f"{k}={v}" for k, v in list(o[5].items())[:3]]
        got = [line for line in a["label"].split("\n") if line]
        assert got == want, f"label of {i!r}: {got} != {want}"
        assert a["color"] == color
    want = [(o[1], o[2], o[3], o[4], o[5]) for o in edges]
    got = [(s, t, a.get("label", ""), a.get("color", "#424242"), a.get("style", "solid")) for s, t, a in got_edges]
    assert got == want, f"edges {got} != {want}"
    return interesting(nodes, edges)


@R.facet("html-export", GRAPH(), quick=600, thorough=15000, weight=2)
def html_export(c):
    r, nodes, edges = build(c, "html")
    text = rendered(r)
    p = Divs()
    p.feed(text)
    p.close()
    assert not p.unknown, f"names became tags: {p.unknown}"
    want = []
    for i, (o, shapes, _) in nodes.items():
        w = f"{o[2]} ({o[3]}) ID: {i}"
        if c["shapes"] and shapes:
            w += f" Input shapes: {shapes}"
        if c["params"] and o[5]:
            w += f" Parameters: {o[5]}"
        want.append(["node", norm(w)])
    for o in edges:
        want.append(["edge", norm(f"{o[1]} → {o[2]}" + (f" [{o[3]}]" if o[3] else ""))])
    got = [[k, norm(v)] for k, v in p.out]
    assert got == want, f"{got} != {want}"
    assert f"Nodes ({len(nodes)})" in text and f"Edges ({len(edges)})" in text
    return interesting(nodes, edges)


@R.facet("text-export", GRAPH(), quick=300, thorough=8000)
def text_export(c):
    r, nodes, edges = build(c, "text")
    lines = rendered(r).split("\n")
    a, b = lines.index("Nodes:"), len(lines) - 1 - lines[::-1].index("Edges:")
    want = []
    for i, (o, shapes, _) in nodes.items():
        want.append(f"  {i}: {o[2]} ({o[3]})")
        if c["shapes"] and shapes:
            want.append(f"    Input shapes: {shapes}")
        if c["params"] and o[5]:
            want.append(f"    Parameters: {o[5]}")
    got = [x for x in lines[a + 1:b] if x]
    assert got == want, f"{got} != {want}"
    want = [f"  {o[1]} -> {o[2]}" + (f" [{o[3]}]" if o[3] else "") for o in edges]
    assert [x for x in lines[b + 1:] if x] == want
    return interesting(nodes, edges)


# ---------------------------------------------------------------- analysed functions
MOD = st.sampled_from([
    "Dense_0", "Dense_1", "LayerNorm_1", "LayerNorm_10", "LayerNorm_11", "ewma", "buffer", "state_machine",
    "attention_0", "composite", "block", "block_1", "head", "hierarchical_x", "Norm", "Norm_2",
])
LEAFKEYS = ["kernel", "weight", "bias", "alpha", "scale", "logcom"]


@st.composite
def PARAM_TREE(draw, depth=2):
    out = {}
    for name in draw(st.lists(MOD, min_size=1, max_size=5, unique=True)):
        if depth and draw(st.integers(0, 2)) == 0:
            out[name] = draw(PARAM_TREE(depth=depth - 1))
        else:
            keys = draw(st.one_of(st.lists(st.sampled_from(LEAFKEYS), min_size=1, max_size=3, unique=True), st.just(["scale", "bias"])))
            out[name] = {k: draw(st.lists(st.integers(1, 3), max_size=2)) for k in keys}
    return out


def is_leaf(v):
    return all(isinstance(x, list) for x in v.values())


def leaves(tree, path=()):
    for k, v in tree.items():
        if is_leaf(v):
            yield path + (k,), v
        else:
            yield from leaves(v, path + (k,))


def arrays(tree):
    return {k: arrays(v) if isinstance(v, dict) else np.ones(v, np.float32) for k, v in tree.items()}


class Fake:
    """A transformed function with the given parameters."""

    def __init__(self, tree, pair):
        self.p, self.pair = {k: v for k, v in _jnp(arrays(tree)).items()}, pair
        self.__name__ = "model"

    def init(self, rng, *args):
        return (self.p, {}) if self.pair else {"params": self.p}

    def apply(self, *a):
        return a

    def __call__(self, *a):
        return a


def _jnp(t):
    return {k: _jnp(v) if isinstance(v, dict) else jnp.asarray(v) for k, v in t.items()}


ANALYSE = st.fixed_dictionaries(dict(
    tree=PARAM_TREE(), before=st.one_of(st.none(), PARAM_TREE(depth=1)), pair=st.booleans(), params=st.booleans(),
    shape=st.lists(st.integers(1, 4), max_size=3),
))


MODULE_KINDS = [
    ("EWMA", ("ewma",), {"alpha", "logcom"}), ("Buffer", ("buffer",), set()), ("AttentionBasedStateSelector", ("attention",), set()),
    ("HierarchicalStateMachine", ("hierarchical", "state_machine"), set()), ("CompositeStateManager", ("composite",), set()),
]


def kind_of(name, params):
    """The library's kind of module a name or parameter speaks of; None where several or none do."""
    low = name.lower()
    hits = [k for k, marks, ps in MODULE_KINDS if any(m in low for m in marks) or ps & set(params)]
    if not hits and ("kernel" in params or "weight" in params):
        return "Dense"
    return hits[0] if len(hits) == 1 else None


@R.facet("analysed-modules", ANALYSE, quick=200, thorough=5000)
def analysed_modules(c):
    from wax.flax.visualization.computation_graph import ComputationGraphRenderer

    r = ComputationGraphRenderer(output_format="text", include_parameters=c["params"])
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        assert r.analyze_streaming_function(Fake(c["tree"], c["pair"]), jnp.ones(c["shape"])) is r
    want = {".".join(p): v for p, v in leaves(c["tree"])}
    assert set(r.nodes) == set(want) | {"main"}, (set(r.nodes), set(want))
    for i, v in want.items():
        n = r.nodes[i]
        assert n.id == i and n.name == i.split(".")[-1], n
        kind = kind_of(n.name, v)
        assert kind is None or n.module_type == kind, f"{i} with {sorted(v)} is shown as {n.module_type}, it is {kind}"
        shown = {k: f"shape={tuple(s)}" for k, s in v.items()} if c["params"] else {}
        assert n.parameters == shown, (n.parameters, shown)
    main = r.nodes["main"]
    assert main.name == "model" and main.input_shapes == {"input": tuple(c["shape"])}, main
    text = r.render()
    assert all(f"  {i}: " in text for i in r.nodes)
    return "nested modules" if any("." in i for i in want) and len(want) > 2 else None


@R.facet("flax-models", st.fixed_dictionaries(dict(
    spec=st.lists(st.lists(st.sampled_from(["dense", "norm", "embed"]), min_size=1, max_size=3), min_size=1, max_size=3),
    n=st.integers(1, 3),
)), quick=8, thorough=150)
def flax_models(c):
    import flax.linen as nn
    from wax.flax.visualization.computation_graph import render_pipeline_graph

    class Block(nn.Module):
        kinds: tuple

        @nn.compact
        def __call__(self, x):
            for k in self.kinds:
                x = nn.LayerNorm()(x) if k == "norm" else nn.Dense(3, use_bias=k == "dense")(x)
            return x

    class Model(nn.Module):
        @nn.compact
        def __call__(self, x):
            for kinds in c["spec"]:
                x = Block(tuple(kinds))(x)
            return x

    x = jnp.ones((c["n"],))
    nodes, edges = read_dot(render_pipeline_graph(Model(), x, format="dot"))
    want = {"main"}
    for i, kinds in enumerate(c["spec"]):
        count = {}
        for k in kinds:
            cls = "LayerNorm" if k == "norm" else "Dense"
            want.add(f"Block_{i}.{cls}_{count.get(cls, 0)}")
            count[cls] = count.get(cls, 0) + 1
    assert {n[0] for n in nodes} == want and len(nodes) == len(want), (nodes, want)
    assert not edges or {e[0] for e in edges} | {e[1] for e in edges} <= want
    return "several blocks" if len(c["spec"]) > 1 else None


# ---------------------------------------------------------------- hierarchies
def check_hierarchy(h, levels=None):
    for i, n in h.items():
        assert n.node_id == i
        assert len(set(n.children)) == len(n.children), f"{i} lists a child twice"
        assert n.is_leaf() == (not n.children)
        for ch in n.children:
            assert h[ch].parent == i, f"{ch} is a child of {i} but its parent is {h[ch].parent}"
        if n.parent is None:
            assert n.level == 0, f"root {i} at level {n.level}"
        else:
            assert i in h[n.parent].children, f"{n.parent} does not list its child {i}"
            assert n.level == h[n.parent].level + 1, f"{i} at level {n.level} below level {h[n.parent].level}"
    if levels is not None:
        listed = [i for v in levels.values() for i in v]
        assert sorted(listed) == sorted(h), f"levels list {sorted(listed)}, nodes are {sorted(h)}"
        assert all(h[i].level == k for k, v in levels.items() for i in v)


def embedded_json(text, marker):
    i = text.index(marker) + len(marker)
    return json.JSONDecoder().raw_decode(text, i)[0]


def check_exports(h, config=None):
    from wax.flax.visualization import nested_graph_viz as v

    pairs = sorted((i, ch) for i, n in h.items() for ch in n.children)
    plain = {i: json.loads(json.dumps(n.properties)) for i, n in h.items()}
    els = [e["data"] for e in embedded_json(v.CytoscapeNestedRenderer(config).render_interactive_graph(h), "elements: ")]
    got = {e["id"]: e for e in els if "source" not in e}
    assert list(got) == list(h), (list(got), list(h))
    for i, e in got.items():
        want = (h[i].name, h[i].node_type, h[i].level, plain[i], h[i].parent)
        assert (e["label"], e["type"], e["level"], e["properties"], e.get("parent")) == want, (e, want)
    assert sorted((e["source"], e["target"]) for e in els if "source" in e) == pairs, "cytoscape edges"

    d3 = embedded_json(v.D3NestedRenderer(config).render_d3_graph(h), "const data = ")
    assert [n["id"] for n in d3["nodes"]] == list(h)
    for n in d3["nodes"]:
        w = h[n["id"]]
        assert (n["name"], n["type"], n["level"], n["properties"]) == (w.name, w.node_type, w.level, plain[w.node_id])
    assert sorted((e["source"], e["target"]) for e in d3["links"]) == pairs, "D3 links"

    nodes, edges = read_dot(v.GraphvizNestedRenderer(config).render_hierarchical_graph(h))
    assert sorted(n[0] for n in nodes) == sorted(h), f"graphviz nodes {sorted(n[0] for n in nodes)} != {sorted(h)}"
    for i, a, path in nodes:
        chain, k = [], i if h[i].children else h[i].parent
        while k is not None:
            chain.insert(0, f"cluster_{k}")
            k = h[k].parent
        assert list(path) == chain, f"{i} drawn in {path}, expected {chain}"
        assert a["label"].split("\n")[0] == h[i].name
    assert sorted((s, t) for s, t, _ in edges) == pairs, "graphviz edges"


@R.facet("analysed-hierarchy", st.fixed_dictionaries(dict(
    tree=PARAM_TREE(), before=st.one_of(st.none(), PARAM_TREE(depth=1)), auto=st.sampled_from([True, True, False]),
    least=st.sampled_from([2, 2, 1, 3]),
)), quick=300, thorough=6000)
def analysed_hierarchy(c):
    from wax.flax.visualization.nested_graph_viz import NestedGraphConfig, NestedGraphVisualizer

    config = NestedGraphConfig(auto_cluster=c["auto"], cluster_min_nodes=c["least"])
    v = NestedGraphVisualizer(config)
    x = jnp.ones((2,))
    if c["before"]:
        v.get_hierarchy_summary(Fake(c["before"], True), x)
    fn = Fake(c["tree"], False)
    s = v.get_hierarchy_summary(fn, x)
    h = s["hierarchy"]
    want = {".".join(p) for p, _ in leaves(c["tree"])} | {"main"}
    clusters = {i for i, n in h.items() if n.node_type == "cluster"}
    assert set(h) - clusters == want, (set(h) - clusters, want)
    check_hierarchy(h, v.analyzer.levels)
    for i in want:
        p = h[i].parent
        assert p is None or p in clusters, f"{i} became a child of {p}, which does not contain it"
        group = [j for j in want if h[j].node_type == h[i].node_type]
        assert (p is not None) == (c["auto"] and len(group) >= c["least"]), f"cluster of {i}: {p}"
        assert all(h[j].parent == p for j in group)
    assert all(h[k].properties["member_count"] == len(h[k].children) > 0 for k in clusters)
    assert s["total_nodes"] == len(h) and s["max_hierarchy_level"] == max(n.level for n in h.values())
    for field, value in (("node_types", lambda n: n.node_type), ("nodes_per_level", lambda n: n.level)):
        want_counts = {}
        for n in h.values():
            want_counts[value(n)] = want_counts.get(value(n), 0) + 1
        assert s[field] == want_counts, (field, s[field], want_counts)
    check_exports(h, config)
    with tempfile.TemporaryDirectory() as d:
        for b in ("cytoscape", "d3"):
            p = os.path.join(d, b + ".html")
            assert v.visualize_computation_graph(fn, x, b, p) == p
            with open(p) as f:
                t = f.read()
            assert all(json.dumps(i) in t for i in h)
    return "clusters and single nodes" if clusters and any(h[i].parent is None for i in want) else None


@R.facet("hierarchy-exports", st.fixed_dictionaries(dict(
    parents=st.lists(st.integers(0, 9), min_size=1, max_size=9),
    names=st.lists(st.text(alphabet='abc "&\'_-.é{}', min_size=1, max_size=8).filter(lambda s: s.strip() == s), min_size=10, max_size=10),
    kinds=st.lists(st.sampled_from(["module", "ewma", "buffer", "cluster", "unknown"]), min_size=10, max_size=10),
    twice=st.booleans(),
)), quick=300, thorough=8000)
def hierarchy_exports(c):
    from wax.flax.visualization.nested_graph_viz import GraphHierarchy

    h = {}
    for i, p in enumerate(c["parents"]):
        parent = f"n{p % i}" if i and p % (i + 1) < i else None
        parent = f"n{p % (i + 1)}" if parent is not None else None
        level = h[parent].level + 1 if parent else 0
        h[f"n{i}"] = GraphHierarchy(f"n{i}", c["names"][i], c["kinds"][i], level, parent, properties={"k": i})
        if parent:
            for _ in range(1 + c["twice"]):
                h[parent].add_child(f"n{i}")
    check_hierarchy(h)
    check_exports(h)
    return "nested levels" if max(n.level for n in h.values()) > 1 else None


# ---------------------------------------------------------------- data flow
MODULES = ["a", "b", "long_module_name_x"]
KINDS = ["input", "output", "state", "gradient", "intermediate"]
VALUE = st.one_of(
    st.tuples(st.just("float"), st.integers(-20, 20)),
    st.tuples(st.just("scalar"), st.integers(-20, 20)),
    st.tuples(st.just("array"), st.lists(st.integers(0, 4), min_size=1, max_size=2)),
    st.tuples(st.just("dict"), st.integers(0, 3)),
    st.tuples(st.just("list"), st.integers(0, 3)),
)
EVENT = st.one_of(
    st.tuples(st.just("rec"), st.sampled_from(MODULES), st.sampled_from(KINDS), VALUE),
    st.tuples(st.just("rec"), st.sampled_from(MODULES), st.sampled_from(KINDS), VALUE),
    st.tuples(st.just("rec"), st.sampled_from(MODULES), st.sampled_from(KINDS), VALUE),
    st.just(("step",)),
    st.tuples(st.just("recent"), st.integers(0, 30)),
    st.tuples(st.just("module"), st.sampled_from(MODULES + ["other"]), st.sampled_from([None] + KINDS)),
)
EVENTS = st.one_of(
    st.lists(EVENT, max_size=6), st.lists(EVENT, min_size=12, max_size=60), st.lists(EVENT, min_size=25, max_size=60),
    st.lists(st.one_of(EVENT, EVENT, EVENT, EVENT, EVENT, st.just(("clear",))), min_size=12, max_size=40),
)


def value(v):
    kind, n = v
    if kind == "float":
        return float(n)
    if kind == "scalar":
        return jnp.float32(n)
    if kind == "array":
        return jnp.ones(n)
    return {str(i): i for i in range(n)} if kind == "dict" else list(range(n))


def shape(v):
    return () if v[0] in ("float", "scalar") else tuple(v[1]) if v[0] == "array" else (v[1],)


def shown(v):
    kind, n = v
    if kind in ("float", "scalar"):
        return f"{float(n):.3f}"
    if kind == "array":
        return "1.000" if int(np.prod(n)) == 1 else f"array{tuple(n)}"
    return f"dict({n} keys)" if kind == "dict" else f"list({n})"


def points(dps):
    return [(d.step, d.module_name, d.data_type, tuple(d.shape), d.metadata) for d in dps]


def feed(t, events, flags, keep):
    """Feed a tracker, compare every answer with a list of the tracked events."""
    model, step = [], 0
    tracked = {k for k, f in zip(KINDS, flags + [True]) if f}
    for k, e in enumerate(events):
        if e[0] == "rec":
            x = value(e[3])
            t.record_data(e[1], e[2], x, {"k": k} if k % 2 else None)
            if e[2] in tracked:
                model.append((step, e[1], e[2], shape(e[3]), {"k": k} if k % 2 else {}, x, e[3]))
        elif e[0] == "step":
            t.step()
            step += 1
        elif e[0] == "clear":
            t.clear_history()
            model, step = [], 0
        elif e[0] == "recent":
            want = model[-keep:]
            want = want[max(0, len(want) - e[1]):]
            got = t.get_recent_data(e[1])
            assert points(got) == [m[:5] for m in want], f"get_recent_data({e[1]}): {points(got)} != {want}"
            assert all(d.value is m[5] for d, m in zip(got, want)), "recorded values"
        else:
            want = [m for m in [m for m in model if m[1] == e[1]][-keep:] if e[2] is None or m[2] == e[2]]
            got = t.get_module_history(e[1], e[2])
            assert points(got) == [m[:5] for m in want], f"get_module_history{e[1:]}: {points(got)} != {want}"
        assert t.step_count == step and len(t.data_history) == min(len(model), keep)
        ts = [d.timestamp for d in t.data_history]
        assert ts == sorted(ts) and all(x >= 0 for x in ts), "timestamps go backwards"
    return model


FLAGS = st.one_of(st.just([True, True, True, False]), st.lists(st.booleans(), min_size=4, max_size=4))


@R.facet("tracker", st.fixed_dictionaries(dict(events=EVENTS, flags=FLAGS, keep=st.sampled_from([1, 3, 10, 10, 1000]))),
         quick=400, thorough=12000, weight=2)
def tracker(c):
    from wax.flax.visualization.data_flow_visualizer import DataFlowTracker

    f = list(c["flags"])
    t = DataFlowTracker(max_history=c["keep"], track_inputs=f[0], track_outputs=f[1], track_states=f[2], track_gradients=f[3])
    model = feed(t, c["events"], f, c["keep"])
    recs = sum(e[0] == "rec" for e in c["events"])
    if len({m[1] for m in model}) > 1 and (len(model) < recs or len(model) > c["keep"]):
        return "events of several modules, some untracked or dropped"


PLOT = st.fixed_dictionaries(dict(
    events=EVENTS, keep=st.sampled_from([5, 1000]), flags=FLAGS, points=st.sampled_from([1, 5, 200]),
    modules=st.one_of(st.none(), st.none(), st.lists(st.sampled_from(MODULES), min_size=1, max_size=2, unique=True)),
    kinds=st.one_of(st.none(), st.none(), st.lists(st.sampled_from(KINDS), min_size=1, max_size=3, unique=True)),
))


def filtered(model, c):
    return [
        m for m in model[-c["keep"]:]
        if (c["modules"] is None or m[1] in c["modules"]) and (c["kinds"] is None or m[2] in c["kinds"])
    ]


def make(c, backend):
    from wax.flax.visualization.data_flow_visualizer import DataFlowTracker, DataFlowVisualizer

    f = list(c["flags"])
    t = DataFlowTracker(max_history=c["keep"], track_inputs=f[0], track_outputs=f[1], track_states=f[2], track_gradients=f[3])
    model = feed(t, c["events"], f, c["keep"])
    v = DataFlowVisualizer(backend=backend, max_points=c["points"], figure_size=(4, 3))
    v.attach_tracker(t)
    return t, v, model


def check_text(text, t, want):
    if not want:
        assert "No data points" in text, text
        return
    lines = text.split("\n")
    get = {k.split(":")[0]: k.split(": ", 1)[1] for k in lines if ": " in k and "|" not in k}
    assert int(get["Active modules"]) == len({m[1] for m in want}), text
    assert set(get["Data types"].split(", ")) == {m[2] for m in want}, text
    assert int(get["Total steps"]) == t.step_count and int(get["Recent points"]) == len(want), text
    rows = [[x.strip() for x in k.split("|")] for k in lines if k.startswith("Step ")]
    assert rows == [[f"Step {m[0]:3d}", m[1], m[2], shown(m[6])] for m in want[-10:]], (rows, want[-10:])


@R.facet("text-plots", PLOT, quick=300, thorough=8000)
def text_plots(c):
    t, v, model = make(c, "text")
    text = v.create_streaming_plot(c["modules"], c["kinds"])
    want = filtered(model, c)[-20:]
    check_text(text, t, want)
    return "filtered events" if len(want) > 1 and len(want) < min(20, len(model)) else None


@R.facet("matplotlib-plots", PLOT, quick=40, thorough=500, weight=3)
def matplotlib_plots(c):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    t, v, model = make(c, "matplotlib")
    try:
        fig = quiet(v.create_streaming_plot, c["modules"], c["kinds"])
        quiet(v.update_plot)
        want = filtered(model, c)[-c["points"]:]
        if not want:
            return None

        def drawn(ax):
            return {k.get_label(): list(zip([int(x) for x in k.get_xdata()], [float(y) for y in k.get_ydata()])) for k in ax.lines}

        values, sizes = {}, {}
        for m in want:
            if m[6][0] in ("float", "scalar"):
                values.setdefault(m[1], []).append((m[0], float(m[5])))
            sizes.setdefault(m[1], []).append((m[0], float(np.prod(m[3])) if m[3] else 1.0))
        assert drawn(fig.axes[0]) == values, f"values drawn {drawn(fig.axes[0])}, recorded {values}"
        assert drawn(fig.axes[1]) == sizes, f"sizes drawn {drawn(fig.axes[1])}, recorded {sizes}"
        names = [x.get_text() for x in fig.axes[2].get_yticklabels()]
        assert sorted(names) == sorted({m[1] for m in want}), names
        assert len(fig.axes[2].collections) == len(want), "activity points"
        rows = [names[int(round(float(s.get_offsets()[0][1])))] for s in fig.axes[2].collections]
        assert rows == [m[1] for m in want], "activity of the modules"
        return "several modules drawn" if len(sizes) > 1 else None
    finally:
        plt.close("all")


@R.facet("saved-plots", PLOT, quick=100, thorough=3000, weight=1)
def saved_plots(c):
    """the file written is the summary of what the tracker holds when it is written"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from wax.flax.visualization.data_flow_visualizer import visualize_streaming_data

    t, v, model = make(c, "text")
    want = model[-c["keep"]:][-20:]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "flow.txt")
        assert visualize_streaming_data(t, "text", p) == p
        with open(p) as f:
            text = f.read()
        check_text(text, t, want)
        check_text(visualize_streaming_data(t, "text"), t, want)
        # saved after more was recorded: the new content replaces the old
        t.clear_history()
        assert v.save_plot(p) == p
        with open(p) as f:
            check_text(f.read(), t, [])
        if len(c["events"]) % 12 == 5:
            q = os.path.join(d, "flow.png")
            t2, _, _ = make(c, "text")
            try:
                assert quiet(visualize_streaming_data, t2, "matplotlib", q, figure_size=(3, 2)) == q
            finally:
                plt.close("all")
            with open(q, "rb") as f:
                assert f.read(8) == b"\x89PNG\r\n\x1a\n", "the plot saved is not a PNG image"
    return "several modules" if len({m[1] for m in model}) > 1 else None


# ---------------------------------------------------------------- streaming figures
class Figure:
    """a stand-in for a figure of the plotting libraries, which are not installed"""

    def __init__(self):
        self.data, self.renderers = (), []

    def add_scatter(self, **kw):
        self.data += (types.SimpleNamespace(**{**kw, "x": tuple(kw["x"]), "y": tuple(kw["y"])}),)

    def batch_update(self):
        return contextlib.nullcontext()

    def line(self, *a, **k):
        self.renderers.append((a, k))
        return self.renderers[-1]

    circle = line

    def add_tools(self, *a):
        pass


STREAM = st.sampled_from(["a", "b", "a b", "1_a"])
POINT = st.tuples(st.just("point"), st.integers(0, 1), STREAM, st.floats(-5, 5, width=16), st.integers(0, 50))
STREAM_OP = st.one_of(st.tuples(st.just("add"), st.integers(0, 1), STREAM), POINT, POINT)


@R.facet("streaming-figures", st.fixed_dictionaries(dict(
    ops=st.lists(STREAM_OP, min_size=4, max_size=40), keep=st.integers(1, 6), bokeh=st.booleans(), start=st.sets(STREAM, min_size=1, max_size=3),
)), quick=300, thorough=10000)
def streaming_figures(c):
    """each stream shows its own last points, in the order they came"""
    from wax.flax.visualization import bokeh_viz, jupyter_viz

    figs = [Figure(), Figure()]
    if c["bokeh"]:
        v = quiet(bokeh_viz.BokehStreamingPlot, bokeh_viz.BokehVizConfig(max_points=c["keep"]))
        patch = [mock.patch.object(bokeh_viz, "ColumnDataSource", lambda data: types.SimpleNamespace(data=dict(data)), create=True),
                 mock.patch.object(bokeh_viz, "HoverTool", lambda **k: None, create=True)]
    else:
        v = quiet(jupyter_viz.StreamingDataVisualizer, jupyter_viz.JupyterVizConfig(max_history_points=c["keep"]))
        patch = []
    model, dropped, unknown = {}, 0, 0
    with contextlib.ExitStack() as stack:
        for p in patch:
            stack.enter_context(p)
        for op in [("add", i % 2, s) for i, s in enumerate(sorted(c["start"]))] + c["ops"]:
            fig = 0 if c["bokeh"] else op[1]  # a Bokeh plot object names its streams once for all figures
            if op[0] == "add":
                if (fig, op[2]) in model:
                    continue
                model[fig, op[2]] = []
                if c["bokeh"]:
                    v.add_line_stream(figs[op[1]], op[2])
                else:
                    v.add_stream(figs[fig], op[2])
                continue
            y, t = op[3], float(op[4])
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                if c["bokeh"]:
                    v.update_stream(op[2], t, y)
                else:
                    v.update_stream(figs[fig], op[2], y, timestamp=t)
            if (fig, op[2]) in model:
                assert not w, [str(k.message) for k in w]
                model[fig, op[2]].append((t, y))
                dropped += len(model[fig, op[2]]) > c["keep"]
            else:
                assert w, f"nothing is said of the unknown stream {op[2]!r}"
                unknown += 1
            if c["bokeh"]:
                shown = {(0, n): s.data for n, s in v.data_sources.items()}
            else:
                shown = {(i, k.name): {"x": k.x, "y": k.y} for i, f in enumerate(figs) for k in f.data}
            got = {k: list(zip(d["x"], d["y"], strict=True)) for k, d in shown.items()}
            want = {k: p[-c["keep"]:] for k, p in model.items()}
            assert got == want, f"shown {got}, expected {want}"
    return "points dropped" if dropped else "unknown streams" if unknown else None


@R.facet("animation-keeps-data", st.fixed_dictionaries(dict(
    events=st.lists(EVENT, min_size=3, max_size=12), flags=FLAGS, frames=st.integers(1, 3),
)), quick=2, thorough=20, weight=2)
def animation_keeps_data(c):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from wax.flax.visualization.data_flow_visualizer import DataFlowTracker, create_flow_animation

    f = list(c["flags"])
    t = DataFlowTracker(max_history=50, track_inputs=f[0], track_outputs=f[1], track_states=f[2], track_gradients=f[3])
    model = feed(t, c["events"], f, 50)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "flow.gif")
        try:
            assert quiet(create_flow_animation, t, duration=c["frames"] / 2, fps=2, output_path=p) == p
        finally:
            plt.close("all")
        assert os.path.getsize(p) > 0
    assert points(t.get_recent_data(1000)) == [m[:5] for m in model], "the animation changed the recorded data"
    return "recorded data kept" if len(model) > 1 else None


# ---------------------------------------------------------------- dashboard
DASH = st.one_of(
    st.tuples(st.just("reg"), st.sampled_from(["p", "q"])),
    st.tuples(st.just("rec"), st.sampled_from(["p", "q", "p", "none"]), st.sampled_from(MODULES), st.sampled_from(KINDS[:3]), VALUE,
              st.one_of(st.none(), st.integers(0, 400)), st.one_of(st.none(), st.integers(0, 4000))),
    st.tuples(st.just("rec"), st.sampled_from(["p", "q"]), st.sampled_from(MODULES), st.sampled_from(KINDS[:3]), VALUE,
              st.one_of(st.none(), st.integers(0, 400)), st.one_of(st.none(), st.integers(0, 4000))),
    st.tuples(st.just("step"), st.sampled_from(["p", "q"])),
)


class Socket:
    def __init__(self):
        self.sent = []

    def emit(self, event, data):
        self.sent.append((event, json.loads(json.dumps(data))))


class Web:
    """a stand-in for the web framework, which is not installed: it registers the handlers and calls them"""

    def __init__(self):
        self.routes, self.events, self.replies, web = {}, {}, [], self

        class App:
            def __init__(self, *a, **k):
                self.config = {}

            def route(self, path, **k):
                return lambda f: web.routes.setdefault(path, f)

            get = route

        class WebSocket(Socket):
            def __init__(self, *a, **k):
                super().__init__()

            def on(self, event, **k):
                return lambda f: web.events.setdefault(event, f)

        self.request = mock.Mock()
        self.fakes = dict(HAS_FLASK=True, Flask=App, SocketIO=WebSocket, request=self.request, flask=mock.Mock(),
                          jsonify=lambda v: json.loads(json.dumps(v)), emit=lambda e, v: self.replies.append((e, v)))

    def __enter__(self):
        import wax.flax.visualization.interactive_dashboard as m

        self.patches = [mock.patch.object(m, k, v) for k, v in self.fakes.items()]
        for q in self.patches:
            q.start()
        return self

    def __exit__(self, *a):
        for q in self.patches:
            q.stop()

    def get(self, path, *a):
        v = self.routes[path](*a)
        return v if isinstance(v, tuple) else (v, 200)

    def event(self, name, who, *a):
        self.request.sid = who
        self.replies.clear()
        self.events[name](*a)
        return list(self.replies)


def check_api(web, d, data, steps, metrics, alerts, c):
    v, code = web.get("/api/pipelines")
    assert code == 200 and v["count"] == len(data) and sorted(v["pipelines"]) == sorted(data), v
    for p in ["p", "q", "absent"]:
        v, code = web.get("/api/pipeline/<pipeline_id>/data", p)
        g, gcode = web.get("/api/pipeline/<pipeline_id>/graph", p)
        (reply, answer), = web.event("subscribe_pipeline", "me", {"pipeline_id": p})
        if p not in data:
            assert code == gcode == 404 and reply == "error", (p, code, gcode, reply)
            continue
        assert code == gcode == 200 and reply == "pipeline_subscribed" and answer["pipeline_id"] == p
        assert v["pipeline_id"] == p and v["total_steps"] == steps[p], v
        got = [(m["step"], m["module_name"], m["data_type"], m["metadata"]) for m in v["data"]]
        assert got == [(m[0], m[1], m[2], m[4]) for m in data[p][-min(c["keep"], 100):]], f"data of {p}: {got}"
        for m in v["data"]:
            assert json.dumps(m["value"]) is not None
    v, _ = web.get("/api/performance")
    for k, w in metrics.items():
        assert v[k]["values"] == w[-50:] and v[k]["current"] == w[-1], f"{k}: {v[k]} of {w}"
        assert abs(v[k]["average"] - sum(w[-50:]) / len(w[-50:])) < 1e-6
    v, _ = web.get("/api/alerts")
    assert v["count"] == len(alerts) and [(a["type"], a["pipeline_id"]) for a in v["alerts"]] == alerts, v
    page, _ = web.get("/")
    assert page.lstrip().lower().startswith("<!doctype html")


@R.facet("dashboard", st.fixed_dictionaries(dict(
    ops=st.one_of(st.lists(DASH, min_size=6, max_size=30), st.lists(DASH, min_size=6, max_size=30), st.lists(DASH, min_size=70, max_size=110)).map(lambda o: [("reg", "p")] + o), alerts=st.sampled_from([True, True, True, False]), ms=st.sampled_from([0, 100, 200]),
    mb=st.sampled_from([0, 1000, 2000]), keep=st.sampled_from([3, 1000]), client=st.booleans(), web=st.booleans(),
)), quick=300, thorough=8000)
def dashboard(c):
    with Web() if c["web"] else contextlib.nullcontext() as web:
        return dashboard_history(c, web)


def dashboard_history(c, web):
    from wax.flax.visualization.interactive_dashboard import DashboardConfig, InteractiveDashboard

    d = quiet(InteractiveDashboard, DashboardConfig(
        enable_alerts=c["alerts"], performance_threshold_ms=float(c["ms"]), memory_threshold_mb=float(c["mb"]), max_data_points=c["keep"]))
    if web:
        sock = d.socketio
        for who in ("me", "other"):
            web.event("connect", who)
        web.event("disconnect", "other")
        if not c["client"]:
            web.event("disconnect", "me")
        assert set(d.state.connected_clients) == ({"me"} if c["client"] else set())
    else:
        d.socketio = sock = Socket()
        if c["client"]:
            d.state.connected_clients.add("me")
    data, steps, calls, metrics, alerts, sent = {}, {}, {}, {}, [], []
    for o in c["ops"]:
        pid = o[1]
        if o[0] == "reg":
            quiet(d.register_pipeline, pid, lambda x: x, 1.0, "desc " + pid)
            data[pid], steps[pid], calls[pid] = [], 0, 0
        elif o[0] == "step":
            d.step_pipeline(pid)
            if pid in data:
                steps[pid] += 1
                calls[pid] += 1
        else:
            _, _, mod, kind, v, ms, mb = o
            meta = {k: float(x) for k, x in (("execution_time_ms", ms), ("memory_usage_mb", mb)) if x is not None}
            x = value(v)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                d.record_pipeline_data(pid, mod, kind, x, meta or None)
            if pid not in data:
                assert any(issubclass(k.category, UserWarning) for k in w), "no warning for an unknown pipeline"
                continue
            data[pid].append((steps[pid], mod, kind, shape(v), meta))
            for name, q, limit, typ in (("execution_time", ms, c["ms"], "performance"), ("memory_usage", mb, c["mb"], "memory")):
                if q is not None:
                    metrics.setdefault(f"{pid}_{name}", []).append(float(q))
                    if c["alerts"] and q > limit:
                        alerts.append((typ, pid))
            if c["client"]:
                plain = np.asarray(x).tolist() if v[0] == "array" and int(np.prod(v[1])) <= 10 else None
                sent.append((pid, mod, kind, steps[pid], float(v[1]) if v[0] in ("float", "scalar") else plain))
        assert set(d.state.active_pipelines) == set(data)
        for p in data:
            assert points(d.state.data_trackers[p].get_recent_data(1000)) == data[p][-c["keep"]:], p
            assert d.state.data_trackers[p].step_count == steps[p]
            assert d.state.active_pipelines[p]["total_calls"] == calls[p]
        for k, w in metrics.items():
            assert list(d.state.performance_metrics[k]) == w, k
        assert [(a["type"], a["pipeline_id"]) for a in d.state.alerts] == alerts, (list(d.state.alerts), alerts)
    if web:
        check_api(web, d, data, steps, metrics, alerts, c)
    got = [m for e, m in sock.sent if e == "pipeline_data_update"]
    assert [(m["pipeline_id"], m["module_name"], m["data_type"], m["step"]) for m in got] == [s[:4] for s in sent]
    for m, s in zip(got, sent):
        assert s[4] is None or m["value"] == s[4], (m, s)
    assert [(m["type"], m["pipeline_id"]) for e, m in sock.sent if e == "alert"] == alerts, "alerts sent to the clients"
    if len(alerts) and sum(len(v) for v in data.values()) > len(alerts):
        return "records with and without alerts"


# ---------------------------------------------------------------- controls
@R.facet("parameter-controls", st.fixed_dictionaries(dict(
    params=st.lists(st.tuples(st.sampled_from(["float", "int", "bool", "dropdown", "unknown"]), st.integers(0, 10)), min_size=1, max_size=5),
    sets=st.lists(st.tuples(st.integers(0, 4), st.integers(-5, 15)), max_size=8), fails=st.booleans(),
)), quick=150, thorough=3000)
def parameter_controls(c):
    from wax.flax.visualization.jupyter_viz import InteractiveParameterControls

    controls = quiet(InteractiveParameterControls)
    spec, model, seen = {}, {}, []
    for i, (kind, v) in enumerate(c["params"]):
        n = f"p{i}"
        spec[n] = {
            "float": {"type": "float", "min": 0.0, "max": 10.0, "value": float(v), "step": 0.5},
            "int": {"type": "int", "min": 0, "max": 10, "value": v},
            "bool": {"type": "bool", "value": v > 5},
            "dropdown": {"type": "dropdown", "options": ["u", "v", "w"], "value": "uvw"[v % 3]},
            "unknown": {"type": "unknown"},
        }[kind]
        if kind != "unknown":
            model[n] = spec[n]["value"]
    panel = controls.create_parameter_panel(spec)
    assert [w.description for w in panel.children] == list(model)
    if c["fails"]:
        controls.add_callback(lambda p: 1 / 0)
    controls.add_callback(lambda p: seen.append(dict(p)))
    assert controls.get_parameters() == model, (controls.get_parameters(), model)
    want = []
    for i, v in c["sets"]:
        n = f"p{i}"
        if n not in model:
            continue
        kind = spec[n]["type"]
        new = {"float": min(10.0, max(0.0, float(v))), "int": min(10, max(0, v)), "bool": v > 5, "dropdown": "uvw"[v % 3]}[kind]
        quiet(setattr, controls.controls[n], "value", float(v) if kind == "float" else v if kind == "int" else new)
        if new != model[n]:
            model[n] = new
            want.append(dict(model))
        assert controls.get_parameters() == model, (controls.get_parameters(), model)
    assert seen == want, f"callbacks saw {seen}, values were {want}"
    return "several changes" if len(want) > 1 else None
