"""Observation of real hatchet objects, independent of their own traversal code:
canonical forms, deep snapshots, structural well-formedness."""
import copy
import numpy as np
import pandas as pd
from .core import Violation, same

def attrs_key(node):
    return tuple(sorted(node.frame.attrs.items(), key=lambda kv: kv[0]))

def nodes_of(graph):
    """All nodes reachable over child links, by object identity, in discovery order."""
    seen, out = set(), []
    st = list(reversed(graph.roots))
    while st:
        n = st.pop()
        if id(n) in seen:
            continue
        seen.add(id(n)); out.append(n)
        st.extend(reversed(n.children))
    return out

def path_sets(graph, limit=20000):
    """id(node) -> set of frame-key paths from the roots (along child links)."""
    out, cnt = {}, 0
    st = [(r, ()) for r in graph.roots]
    while st:
        n, p = st.pop()
        p = p + (attrs_key(n),)
        out.setdefault(id(n), set()).add(p)
        cnt += 1
        if cnt > limit:
            raise Violation("paths:explosion", "graph has an unbounded number of root paths (cycle?)")
        st.extend((c, p) for c in n.children)
    return out

def all_paths(graph):
    s = set()
    for v in path_sets(graph).values():
        s |= v
    return s

def canon(graph):
    """Canonical form of a graph with distinct sibling frames: set of path-sets (one per node)."""
    return frozenset(frozenset(v) for v in path_sets(graph).values())

def model_canon(m):
    return frozenset(frozenset(v) for v in m.paths().values())

def paths_by_id(graph):
    return {k: frozenset(v) for k, v in path_sets(graph).items()}

# ---------------------------------------------------------------- snapshots
def snap_graph(g):
    ns = nodes_of(g)
    return {
        "roots": [id(r) for r in g.roots],
        "ordering": g.node_ordering,
        "nodes": {id(n): (n._hatchet_nid, n._depth, dict(n.frame.attrs), [id(c) for c in n.children],
                          [id(p) for p in n.parents]) for n in ns},
    }

def _cell(v):
    if isinstance(v, float) and v != v:
        return "NaN"
    if isinstance(v, (list, dict, set)):
        return repr(v)
    return v

def snap_df(df):
    names = list(df.index.names)
    ix = []
    for t in df.index.tolist():
        t = t if isinstance(t, tuple) and len(names) > 1 else (t,)
        ix.append(tuple(id(x) if nm == "node" else x for nm, x in zip(names, t)))
    return {"index_names": names, "index": ix, "columns": list(df.columns),
            "dtypes": [str(d) for d in df.dtypes],
            "values": [[_cell(v) for v in df.iloc[:, j].tolist()] for j in range(df.shape[1])]}

def snap(gf):
    return {"graph_id": id(gf.graph), "graph": snap_graph(gf.graph), "df": snap_df(gf.dataframe),
            "exc": list(gf.exc_metrics), "inc": list(gf.inc_metrics), "default": gf.default_metric,
            "metadata": copy.deepcopy(gf.metadata)}

def diff(a, b, path=""):
    """First difference between two snapshots, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return "%s: keys %s vs %s" % (path, sorted(map(str, a.keys() - b.keys()))[:5], sorted(map(str, b.keys() - a.keys()))[:5])
        for k in a:
            d = diff(a[k], b[k], "%s/%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d vs %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if same(a, b) else "%s: %r vs %r" % (path, a, b)

def expect_unchanged(ctx, before, gf, key, msg=""):
    d = diff(before, snap(gf))
    ctx.hit("snapshots")
    ctx.expect(d is None, key, "%s: input changed at %s" % (msg, d))

# ---------------------------------------------------------------- rows
def rows_by(gf, label):
    """{(label(node), idx tuple): {col: value}}; duplicate index entries are a violation."""
    df = gf.dataframe
    names = list(df.index.names)
    pos = names.index("node")
    cols = list(df.columns)
    data = [df.iloc[:, j].tolist() for j in range(df.shape[1])]
    out = {}
    for i, t in enumerate(df.index.tolist()):
        t = t if len(names) > 1 else (t,)
        k = (label(t[pos]), tuple(x for j, x in enumerate(t) if j != pos))
        if k in out:
            raise Violation("rows:duplicate", "two rows for the same node and index %r" % (k,))
        out[k] = {c: data[j][i] for j, c in enumerate(cols)}
    return out

def rows_by_path(gf):
    """Rows keyed by the node's path set; node objects must be the graph's own."""
    ps = paths_by_id(gf.graph)
    def lab(n):
        if id(n) not in ps:
            raise Violation("rows:foreign-node", "dataframe row refers to a node object that is not in the graph: %r" % (n,))
        return ps[id(n)]
    return rows_by(gf, lab)

def model_rows_by_path(m):
    ps = {i: frozenset(v) for i, v in m.paths().items()}
    return {(ps[i], c): dict(row) for (i, c), row in m.rows.items()}

# ---------------------------------------------------------------- well-formedness
def check_graph(ctx, g, what="graph", depths=True, numbering=True, rooted=True):
    ns = nodes_of(g)
    ids = {id(n) for n in ns}
    ctx.hit("wellformed_graphs")
    kids = {id(n): [id(c) for c in n.children] for n in ns}
    for n in ns:
        ctx.expect(len(set(kids[id(n)])) == len(kids[id(n)]), "wf:duplicate-edge", "%s: node %r lists a child twice" % (what, n))
        pids = [id(p) for p in n.parents]
        ctx.expect(len(set(pids)) == len(pids), "wf:duplicate-parent", "%s: node %r lists a parent twice" % (what, n))
        for p in n.parents:
            ctx.expect(id(p) in ids, "wf:foreign-parent", "%s: node %r has a parent outside the graph" % (what, n))
            ctx.expect(id(n) in kids[id(p)], "wf:parent-not-mirrored", "%s: %r lists parent %r which does not list it as child" % (what, n, p))
        for c in n.children:
            ctx.expect(any(q is n for q in c.parents), "wf:child-not-mirrored", "%s: %r is a child of %r but does not list it as parent" % (what, c, n))
    rids = [id(r) for r in g.roots]
    ctx.expect(len(set(rids)) == len(rids), "wf:duplicate-root", "%s: a root is listed twice" % what)
    for r in g.roots:
        ctx.expect(not r.parents or not rooted, "wf:root-with-parent", "%s: root %r has parents" % (what, r))
    if numbering:
        nids = [n._hatchet_nid for n in ns]
        ctx.expect(sorted(nids) == list(range(len(ns))), "wf:numbering", "%s: node ids are not 0..n-1: %s" % (what, sorted(nids)))
    if depths and (rooted or not any(r.parents for r in g.roots)):     # else a shared node has become a root as well
        for n in ns:
            if not n.parents:
                ctx.expect(n._depth == 0, "wf:depth", "%s: root %r has depth %s" % (what, n, n._depth))
            else:
                ctx.expect(any(p._depth + 1 == n._depth for p in n.parents), "wf:depth",
                           "%s: %r depth %s, parents' depths %s" % (what, n, n._depth, [p._depth for p in n.parents]))
    return ns

def check_gf(ctx, gf, what="graphframe", every_node_has_rows=False, **kw):
    ns = check_graph(ctx, gf.graph, what, **kw)
    ids = {id(n) for n in ns}
    df = gf.dataframe
    ctx.expect("node" in list(df.index.names), "wf:index", "%s: no node index level (%s)" % (what, list(df.index.names)))
    lv = df.index.get_level_values("node").tolist()
    for n in lv:
        ctx.expect(id(n) in ids, "wf:row-node", "%s: row node %r is not a node of the graph" % (what, n))
    ctx.expect(not df.index.has_duplicates, "wf:duplicate-index", "%s: duplicate index entries" % what)
    for c in list(gf.exc_metrics) + list(gf.inc_metrics):
        ctx.expect(c in list(df.columns), "wf:metric-list", "%s: metric %r has no column (%s)" % (what, c, list(df.columns)))
    ctx.expect(len(set(map(str, gf.exc_metrics))) == len(gf.exc_metrics) and len(set(map(str, gf.inc_metrics))) == len(gf.inc_metrics),
               "wf:metric-list-dup", "%s: metric listed twice" % what)
    if every_node_has_rows:
        have = {id(n) for n in lv}
        for n in ns:
            ctx.expect(id(n) in have, "wf:node-without-row", "%s: graph node %r has no row" % (what, n))
    ctx.hit("wellformed_graphframes")
    return ns
