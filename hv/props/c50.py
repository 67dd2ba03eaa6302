"""Results reflect what a graphframe holds when they are asked for."""
import copy, os
import numpy as np
from .. import gen, hist, obs
RULE = ("graphframes that answer a random part of all operations, are then edited by the user (values, names, columns, metric lists, default metric, metadata, rows, nodes and edges, frames, another graph and dataframe) one to three times, and answer all operations again, "
        "with the same functions and query objects; oracle = a graphframe newly built with what the edited one holds; non-trivial = an edited case with >= 3 nodes")
REQUIRED = {"edits": 500, "asked_before": 3000, "compared": 12000, "values": 80, "cells": 50, "names": 50, "column": 50, "lists": 50, "default": 50, "metadata": 50, "order": 50, "node_added": 50, "node_removed": 30, "edge": 20, "moved": 20, "renamed": 40, "frame": 50, "replaced": 30, "multi_index": 60, "dag": 60, "answers_changed": 300}

def keep_columns(m):
    return [c for c in m.columns if c not in ("name", "module", "nid")]

def edit(ctx, rng, kind, m, gf, nodes):
    """The user changes the graphframe; the model changes alike.  Returns (nodes, whether the graph changed)."""
    from hatchet.node import Node
    from hatchet.frame import Frame
    mets = m.exc + m.inc
    if kind in ("values", "cells"):
        col = rng.choice(mets)
        keys = list(m.rows) if kind == "values" else rng.sample(list(m.rows), min(len(m.rows), 2))
        for k in keys:
            m.rows[k][col] = gen.val(rng, 0, 0)
        if kind == "cells":
            if gf.dataframe[col].dtype.kind == "i":
                gf.dataframe[col] = gf.dataframe[col].astype(float)
                m.int_cols = [c for c in m.int_cols if c != col]
            at = {(id(t[0]), tuple(t[1:])): x for x, t in enumerate(y if isinstance(y, tuple) else (y,) for y in gf.dataframe.index.tolist())}
            for i, c in keys:
                gf.dataframe.iat[at[(id(nodes[i]), c)], gf.dataframe.columns.get_loc(col)] = m.rows[(i, c)][col]
        else:
            m.int_cols = [c for c in m.int_cols if c != col]
            assign(rng, m, gf, nodes, col, float)
    elif kind == "names":
        i = rng.randrange(len(nodes))
        new = "renamed %d" % rng.randrange(99)
        for k in m.rows:
            if k[0] == i:
                m.rows[k]["name"] = new
        assign(rng, m, gf, nodes, "name", object)
    elif kind == "column":
        col = "extra %d" % rng.randrange(3)
        for k in m.rows:
            m.rows[k][col] = gen.val(rng, 0, 0)
        if col not in m.columns:
            m.columns = m.columns + [col]
        assign(rng, m, gf, nodes, col, float)
        l = rng.choice(["exc", "inc"])
        if col not in mets:
            setattr(m, l, getattr(m, l) + [col])
            if rng.random() < 0.5:
                getattr(gf, l + "_metrics").append(col)
            else:
                setattr(gf, l + "_metrics", list(getattr(m, l)))
    elif kind == "lists":
        if len(m.exc) > 1 and rng.random() < 0.5:
            x = rng.choice(m.exc)
            m.exc = [c for c in m.exc if c != x]
            gf.exc_metrics.remove(x)
        else:
            m.exc, m.inc = m.exc[::-1], m.inc[::-1]
            gf.exc_metrics.reverse()
            gf.inc_metrics = gf.inc_metrics[::-1]
    elif kind == "renamed":
        x, new = rng.choice(mets), "renamed %d" % rng.randrange(99)
        if new in m.columns:
            return None
        m.exc, m.inc, m.columns, m.int_cols = [[new if c == x else c for c in l] for l in (m.exc, m.inc, m.columns, m.int_cols)]
        m.rows = {k: {new if c == x else c: v for c, v in r.items()} for k, r in m.rows.items()}
        if m.default_metric == x:
            m.default_metric = gf.default_metric = new
        if rng.random() < 0.5:
            gf.dataframe.rename(columns={x: new}, inplace=True)
        else:
            gf.dataframe = gf.dataframe.rename(columns={x: new})
        for l in (gf.exc_metrics, gf.inc_metrics):
            l[:] = [new if c == x else c for c in l]
    elif kind == "default":
        m.default_metric = gf.default_metric = rng.choice(mets)
    elif kind == "metadata":
        k, v = "note %d" % rng.randrange(3), rng.randrange(100)
        m.metadata = dict(m.metadata, **{k: v})
        gf.metadata[k] = v
    elif kind == "frame":
        i = rng.randrange(len(nodes))
        m.frames[i] = {"name": "frame %d" % rng.randrange(10 ** 6), "type": "function"}
        nodes[i].frame = Frame(dict(m.frames[i]))
        return True
    elif kind == "node_added":
        p, i = rng.randrange(len(nodes)), len(nodes)
        m.frames.append({"name": "added %d" % rng.randrange(10 ** 6), "type": "function"})
        m.children.append([]); m.children[p].append(i)
        for c in {k[1] for k in m.rows if k[0] == p}:
            m.rows[(i, c)] = dict(m.rows[(p, c)], name=m.frames[i]["name"], **{x: gen.val(rng, 0, 0) for x in mets})
        n = Node(Frame(dict(m.frames[i])), parent=nodes[p] if rng.random() < 0.5 else None)
        if not n.parents:
            n.add_parent(nodes[p])
        nodes[p].add_child(n)
        nodes.append(n)
        return True
    elif kind == "node_removed":
        i = len(nodes) - 1
        if i in m.roots or m.children[i]:
            return None
        for p in range(i):
            if i in m.children[p]:
                m.children[p].remove(i)
                nodes[p].children = [c for c in nodes[p].children if c is not nodes[i]]
        m.frames.pop(); m.children.pop(); nodes.pop()
        m.rows = {k: v for k, v in m.rows.items() if k[0] != i}
        return True
    elif kind == "moved":
        can = [(a, b, c) for a in range(len(nodes)) for b in m.children[a] for c in range(len(nodes)) if sum(b in x for x in m.children) == 1 and c != a and c != b and c not in m.desc(b) and all(m.key(x) != m.key(b) for x in m.children[c])]
        if not can:
            return None
        a, b, c = rng.choice(can)
        m.children[a].remove(b); m.children[c].append(b)
        nodes[a].children.remove(nodes[b])
        nodes[b].parents.remove(nodes[a])
        nodes[b].add_parent(nodes[c]); nodes[c].add_child(nodes[b])
        return True
    elif kind == "edge":
        can = [(a, b) for a in range(len(nodes)) for b in range(len(nodes)) if b not in m.roots and b not in m.children[a] and a not in m.desc(b) and all(m.key(x) != m.key(b) for x in m.children[a])]
        if not can:
            return None
        a, b = rng.choice(can)
        m.children[a].append(b)
        nodes[a].add_child(nodes[b]); nodes[b].add_parent(nodes[a])
        if len(m.paths()) and sum(map(len, m.paths().values())) > 300:
            return "big"
        return True
    return False

def assign(rng, m, gf, nodes, col, kind):
    back = {id(n): i for i, n in enumerate(nodes)}
    vals = np.array([m.rows[(back[id(t[0])], tuple(t[1:]))][col] for t in (x if isinstance(x, tuple) else (x,) for x in gf.dataframe.index.tolist())], dtype=kind)
    if rng.random() < 0.5:
        gf.dataframe[col] = vals
    else:
        gf.dataframe = gf.dataframe.assign(**{col: vals})

def questions(rng, m, other, tmp):
    """name -> what a user asks, with the functions and query objects used every time."""
    from hatchet import GraphFrame
    from hatchet import query as Q
    from hatchet.query import compat
    mode = "off" if not m.levels else rng.choice(["any", "all"])
    col = rng.choice(m.exc or m.inc)
    t = rng.choice([0, 10, 40])
    pred = lambda r: bool(r[col] > t) or "e" in r["name"]
    text = 'MATCH ("*")->(".", p) WHERE p."%s" >= %d' % (col, t)
    lst = [rng.choice(["*", "."]), {col: ">= %d" % t}]
    objs = {"object": Q.ObjectQuery(lst, mode), "string": Q.parse_string_dialect(text, mode), "compound": Q.parse_string_dialect("{%s} OR {%s}" % (text, 'MATCH (".", p) WHERE p."name" =~ "[a-m].*"'), mode)}
    if not m.levels:
        objs["base"] = Q.Query().match(".", lambda r: r[col] >= t).rel("*")
        objs["matcher"] = compat.QueryMatcher().match("+", lambda r: r[col] >= t)
        objs["cypher"] = compat.parse_cypher_query(text)
    sel = dict.fromkeys(m.levels, 0)
    met = rng.choice(m.exc + m.inc)
    graph = lambda g: ([n.frame["name"] for n in g.traverse()], [n.frame["name"] for n in g.traverse(order="post")], [(n.frame["name"], n._depth, n._hatchet_nid) for n in g.node_order_traverse()], len(g), g.is_tree(), repr(list(g.roots)), obs.canon(g),
                       sorted(repr(p) for n in g.traverse() for p in n.paths()), [repr(n.path()) for n in g.traverse() if len(n.parents) < 2 and len(n.paths()) == 1])
    def on(f):
        def go(gf):
            two = gf.deepcopy()
            r = f(two)
            return view(two if r is None else r)
        return go
    def hdf(gf):
        f = os.path.join(tmp, "x.h5")
        gf.to_hdf(f, key="k")
        return view(GraphFrame.from_hdf(f, key="k"))
    out = {
        "graph": lambda gf: graph(gf.graph), "graph.copy": lambda gf: graph(gf.graph.copy()), "graph.union": lambda gf: (obs.canon(gf.graph.union(other.graph)), obs.canon(other.graph.union(gf.graph))), "graph ==": lambda gf: (gf.graph == other.graph, other.graph != gf.graph, gf.graph == gf.graph.copy()),
        "tree": lambda gf: gf.tree(**sel), "tree of a metric": lambda gf: gf.tree(metric_column=met, **sel), "to_dot": lambda gf: gf.to_dot(metric=met, **sel), "to_flamegraph": lambda gf: gf.to_flamegraph(metric=met, **sel), "to_literal": lambda gf: gf.to_literal(**sel),
        "to_dict": lambda gf: repr(gf.to_dict()), "to_json": lambda gf: gf.to_json(), "from_json": lambda gf: view(GraphFrame.from_json(gf.to_json())), "to_hdf": hdf, "show_metric_columns": lambda gf: gf.show_metric_columns(),
        "copy": lambda gf: view(gf.copy()), "deepcopy": lambda gf: view(gf.deepcopy()), "squash": lambda gf: view(gf.squash()), "filter": lambda gf: view(gf.filter(pred, num_procs=1)), "filter without squash": lambda gf: view(gf.filter(pred, squash=False, num_procs=1)),
        "filter by a string": lambda gf: view(gf.filter(text, squash=False, multi_index_mode=mode)), "filter by a list": lambda gf: view(gf.filter(lst, squash=False, multi_index_mode=mode)),
        "subgraph_sum": on(lambda g: g.subgraph_sum([met], ["s"])), "subtree_sum": on(lambda g: g.subtree_sum([met], ["s"])), "update_inclusive_columns": on(lambda g: g.update_inclusive_columns()), "generate_exclusive_columns": on(lambda g: g.generate_exclusive_columns()),
        "drop_index_levels": on(lambda g: g.drop_index_levels()), "add": lambda gf: view(gf.add(other)), "-": lambda gf: view(other - gf), "*": lambda gf: view(gf * gf), "unify": on(lambda g: g.unify(other.deepcopy())),
        "metadata": lambda gf: dict(gf.metadata),
    }
    for k in objs:
        out["filter by a %s query" % k] = (lambda q: lambda gf: view(gf.filter(q, squash=False, multi_index_mode=mode)))(objs[k])
    if not m.levels:
        out["groupby_aggregate"] = lambda gf: merged(gf.groupby_aggregate(["name"], {c: "sum" for c in gf.exc_metrics + gf.inc_metrics}))
    return out

def merged(gf):
    """A grouped graphframe (its graph may hold cycles)."""
    name = lambda n: repr(n.frame)
    return sorted((name(n), sorted(map(name, n.children)), sorted(map(name, n.parents))) for n in gf.graph.traverse()), sorted(repr((name(r["node"]), sorted((k, v) for k, v in r.items() if k != "node"))) for r in gf.dataframe.reset_index().to_dict("records"))

def view(gf):
    """hist.view(), which needs call paths; squashing graphs with shared nodes can merge a node with its ancestor."""
    left = {id(n): len(n.parents) for n in obs.nodes_of(gf.graph)}
    now = [n for n in obs.nodes_of(gf.graph) if not n.parents]
    gone = 0
    while now:
        n = now.pop()
        gone += 1
        for c in n.children:
            left[id(c)] -= 1
            if left[id(c)] == 0:
                now.append(c)
    return merged(gf) if gone < len(left) else hist.view(gf)

def ask(f, gf):
    try:
        return f(gf)
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200])

def twin(m):
    return gen.build(copy.deepcopy(m))

def case(ctx, rng):
    kind = rng.choice(["tree", "tree", "forest", "dag", "dag"])
    levels = rng.choice([(), (), (), ("rank",), ("rank", "thread")])
    def fresh(max_n):
        g = gen.gen_graph(rng, kind=kind, max_n=max_n, max_paths=60)
        if kind == "dag":
            gen.rank_names(rng, g)
        gen.gen_rows(rng, g, levels=levels, exc=("time", "bytes"), inc=("time (inc)",), nanp=rng.choice([0, 0, 0.1]), ragged=rng.random() < 0.1, ranks=2, threads=2, ordered=0, nonneg=rng.random() < 0.7)
        g.columns = [c for c in g.columns if c != "nid"]
        if g.default_metric not in g.columns:
            g.default_metric = "time"
        return g
    m = fresh(rng.choice([2, 5, 9]))
    gf, nodes = twin(m)
    other = gen.build(fresh(4))[0]
    ctx.hit("multi_index", bool(levels)); ctx.hit("dag", any(len(n.parents) > 1 for n in nodes))
    qs = questions(rng, m, other, ctx.tmpdir())
    names = sorted(qs)
    log = []
    before = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        for q in names if rng.random() < 0.3 else rng.sample(names, rng.choice([1, 4, 12])):
            before[q] = ask(qs[q], gf)
            ctx.hit("asked_before")
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["values", "values", "cells", "names", "column", "lists", "default", "metadata", "order", "node_added", "node_removed", "edge", "moved", "renamed", "frame", "replaced"])
            if k == "replaced":
                m = fresh(rng.choice([2, 5]))
                g2, nodes = twin(m)
                gf.graph, gf.dataframe = g2.graph, g2.dataframe
                gf.exc_metrics, gf.inc_metrics, gf.default_metric, gf.metadata = g2.exc_metrics, g2.inc_metrics, g2.default_metric, g2.metadata
            elif k == "order":
                p = rng.sample(range(len(gf.dataframe)), len(gf.dataframe))
                gf.dataframe = gf.dataframe.iloc[p].sort_index() if rng.random() < 0.5 else gf.dataframe.copy()
            else:
                flat = gf.dataframe.reset_index()
                r = edit(ctx, rng, k, m, gf, nodes)
                if r is None:
                    continue
                if r:                                   # the graph changed: its nodes are numbered again and the rows made for them
                    gf.graph.enumerate_traverse()
                    want, wn = twin(m)
                    to = {id(a): b for a, b in zip(wn, nodes)}
                    df = want.dataframe.reset_index()
                    df["node"] = [to[id(n)] for n in df["node"]]
                    gf.dataframe = df.set_index(list(want.dataframe.index.names))
                    ctx.expect([n._hatchet_nid for n in nodes] == [n._hatchet_nid for n in wn], "numbering", "numbers of the nodes after %s" % k, history=log)
                if r == "big":
                    return
            log.append(k)
            ctx.hit("edits"); ctx.hit(k)
        want = twin(m)[0]
        ctx.equal(view(gf), view(want), "held", "what the edited graphframe holds", history=log)
        for q in rng.sample(names, rng.choice([6, 12, len(names)])):
            a, b = (ask(qs[q], gf), ask(qs[q], want))[::1] if rng.random() < 0.5 else (ask(qs[q], want), ask(qs[q], gf))[::-1]
            ctx.equal(repr(a) if isinstance(a, tuple) else a, repr(b) if isinstance(b, tuple) else b, "stale:" + q.split(" by")[0].replace(" ", "-"), "%s after the user's edits" % q, history=log)
            ctx.hit("compared"); ctx.hit("answers_changed", q in before and repr(before[q]) != repr(a))
    if log and len(nodes) >= 3:
        ctx.nontrivial(m.shape_sig(), tuple(log), levels)
    ctx.sample({"edits": log, "nodes": len(nodes), "levels": levels})

SCENARIOS = [("edits", case, 700, 6000)]
