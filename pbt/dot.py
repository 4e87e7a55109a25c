"""reading the graphs that the visualisers draw (through graphviz itself) and comparing them up to isomorphism"""
import json, re, subprocess
from html.parser import HTMLParser
import networkx as nx
from core import require, req_eq


def parse(g):
    """graphviz object (or dot source) -> nodes {key: attributes}, edges [(key, key, attributes)], directed"""
    src = g if isinstance(g, str) else g.source
    p = subprocess.run(["dot", "-Tdot_json"], input=src.encode("utf-8"), capture_output=True, timeout=60)
    require(p.returncode == 0 and b"rror" not in p.stderr, "graphviz does not accept the drawing: %s", p.stderr.decode()[:300])
    d = json.loads(p.stdout.decode("utf-8", "replace"))
    nodes = {o["_gvid"]: o for o in d.get("objects", []) if "nodes" not in o and "subgraphs" not in o and "edges" not in o}
    clusters = [o for o in d.get("objects", []) if o["_gvid"] not in nodes]
    # a cluster without members looks like a node: clusters come first in the numbering
    names = d.get("_subgraph_cnt", 0)
    nodes = {k: o for k, o in nodes.items() if k >= names}
    lab = lambda o: dict(o, label=text(o.get("label", ""), o["name"] if "name" in o else None))
    return {k: lab(o) for k, o in nodes.items()}, [(e["tail"], e["head"], dict(e, label=text(e.get("label", "")))) for e in d.get("edges", [])], d["directed"], clusters


def text(s, name=None):
    if s == "\\N":
        return name
    if s.startswith("<") and s.endswith(">") and "&#" in s:
        s = s[1:-1]
    import html
    return html.unescape(s).replace("\\n", "\n").strip()


def same(g, nodes, edges, what, kind=lambda o: "", directed=True, lab=lambda s: s):
    """the drawing has exactly these nodes {key: (label, kind)} and edges [(key, key, label)]"""
    gn, ge, gd, _ = parse(g)
    if directed is not None:
        req_eq(gd, directed, what + ": directed")
    A, B = nx.MultiDiGraph(), nx.MultiDiGraph()
    for k, o in gn.items():
        A.add_node(k, x=(lab(o["label"]), kind(o)))
    for a, b, o in ge:
        A.add_edge(a, b, x=o["label"])
    for k, v in nodes.items():
        B.add_node(k, x=v if isinstance(v, tuple) else (v, ""))
    for a, b, l in edges:
        B.add_edge(a, b, x=l)
    f = lambda G: sorted((repr(d["x"]) for _, d in G.nodes(data=True)))
    req_eq(f(A), f(B), what + ": nodes")
    h = lambda G: sorted(repr((G.nodes[a]["x"], G.nodes[b]["x"], d["x"])) for a, b, d in G.edges(data=True))
    req_eq(h(A), h(B), what + ": edges")
    nm = nx.algorithms.isomorphism.categorical_node_match("x", None)
    em = lambda p, q: sorted(repr(v["x"]) for v in p.values()) == sorted(repr(v["x"]) for v in q.values())
    require(nx.is_isomorphic(A, B, node_match=nm, edge_match=em), "%s: the drawing connects other elements: %s, expected %s", what, h(A), sorted(map(repr, edges)))


class Table(HTMLParser):
    def __init__(self):
        super().__init__()
        self.rows, self.depth, self.cell = [], 0, None

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "tr":
            self.rows.append([])
        elif tag == "td":
            self.rows[-1].append(["", a.get("bgcolor")])
        elif tag == "font" and self.rows and self.rows[-1] and "color" in a:
            self.rows[-1][-1][1] = a["color"]

    def handle_data(self, s):
        if self.rows and self.rows[-1] and s.strip("\n"):
            self.rows[-1][-1][0] += s


def table(g):
    """rows of an HTML-like table: [[text, color]]"""
    p = subprocess.run(["dot", "-Tdot_json"], input=(g if isinstance(g, str) else g.source).encode("utf-8"), capture_output=True, timeout=60)
    require(p.returncode == 0 and b"rror" not in p.stderr, "graphviz does not accept the drawing: %s", p.stderr.decode()[:300])
    # the layout parses the label
    q = subprocess.run(["dot", "-Tplain"], input=(g if isinstance(g, str) else g.source).encode("utf-8"), capture_output=True, timeout=60)
    require(q.returncode == 0 and b"rror" not in q.stderr and b"arning" not in q.stderr, "graphviz does not accept the table: %s", q.stderr.decode()[:300])
    t = Table()
    t.feed(json.loads(p.stdout.decode("utf-8", "replace"))["objects"][0]["label"])
    return t.rows
