"""Work stays in proportion to the graph, however many call paths it has."""
import os, sys
from .. import gen, obs
from ..core import Violation
RULE = ("layered graphs whose nodes are shared by many callers (chains of diamonds, full layers, skipping edges, several roots): a few dozen nodes, 10^6 to 10^13 call paths; every operation that is not asked for paths runs on them while a monitor "
        "counts the lines of hatchet code it executes (budget in terms of nodes and edges only, some 20 times what is used) and its result is compared with the graph; non-trivial = a graph with >= 10^6 paths")
REQUIRED = dict({"operations": 1000, "paths_1e10": 5, "two_roots": 5}, **{"op_" + k: 20 for k in (
    "traverse", "node_traverse", "len", "is_tree", "graph_copy", "copy", "deepcopy", "equal", "normalize", "union", "add", "isub", "update_inclusive", "filter", "squash", "subtree_sum", "tree", "to_dot", "to_literal", "from_literal",
    "to_json", "from_json", "to_dict", "query", "query_edges", "groupby", "drop_index_levels", "from_gprof_dot", "from_cprofile")}, op_to_hdf=5, op_from_hdf=5)

class Budget(BaseException):
    pass

def lines(f, budget):
    """(result of f, lines of hatchet executed); Budget when there are more."""
    n = [0]
    def local(fr, ev, arg):
        n[0] += 1
        if n[0] > budget:
            raise Budget()
        return local
    known = {}
    def tr(fr, ev, arg):
        fn = fr.f_code.co_filename
        k = known.get(fn)
        if k is None:
            k = known[fn] = (os.sep + "hatchet" + os.sep) in fn and "site-packages" not in fn
        return local(fr, ev, arg) if k else None
    old = sys.gettrace()
    sys.settrace(tr)
    try:
        r = f()
    finally:
        sys.settrace(old)
    return r, n[0]

class G: pass

def layered(rng, least, tag=""):
    """Random layers; every node but the roots has >= 1 caller, most of them several."""
    g = G()
    g.layers, g.kids, g.names = [], {}, []
    def new():
        i = len(g.names)
        g.names.append("%s%s%d" % (tag, rng.choice("abcxyz"), i))
        g.kids[i] = []
        return i
    style = rng.choice(["diamonds", "full", "mixed"])
    g.roots = [new() for _ in range(rng.choice([1, 1, 2]))]
    g.layers.append(list(g.roots))
    ways = {r: 1 for r in g.roots}
    while sum(ways[i] for i in g.layers[-1]) < least:
        prev = g.layers[-1]
        w = {"diamonds": 1 if len(prev) > 1 else rng.choice([2, 3]), "full": rng.choice([2, 3]), "mixed": rng.choice([1, 2, 3])}[style]
        cur = [new() for _ in range(w)]
        for c in cur:
            ps = [p for p in prev if style != "mixed" or rng.random() < 0.8] or [rng.choice(prev)]
            if len(g.layers) > 1 and rng.random() < 0.15:
                ps.append(rng.choice(g.layers[-2]))
            for p in ps:
                g.kids[p].append(c)
            ways[c] = sum(ways[p] for p in ps)
        for p in prev:
            if not g.kids[p]:
                g.kids[p].append(rng.choice(cur))
                ways[g.kids[p][0]] += ways[p]
        g.layers.append(cur)
    for k in g.kids.values():
        rng.shuffle(k)
    g.paths = sum(ways[i] for i in g.layers[-1])
    g.edges = {(p, c) for p, cs in g.kids.items() for c in cs}
    g.time = [float(rng.choice([0, 1, 2, 3, 10])) for _ in g.names]
    return g

def build(g):
    import pandas as pd
    from hatchet import GraphFrame
    from hatchet.node import Node
    from hatchet.frame import Frame
    from hatchet.graph import Graph
    ns = [Node(Frame(name=n, type="function")) for n in g.names]
    for p, cs in g.kids.items():
        for c in cs:
            ns[p].add_child(ns[c]); ns[c].add_parent(ns[p])
    graph = Graph([ns[r] for r in g.roots])
    graph.enumerate_traverse()
    df = pd.DataFrame([{"node": n, "name": g.names[i], "time": g.time[i], "time (inc)": 0.0, "module": "m%d" % (i % 5)} for i, n in enumerate(ns)])
    df = df.set_index("node").sort_index()
    return GraphFrame(graph, df, ["time"], ["time (inc)"])

def edges_of(graph):
    """Edges by name, without using the library's traversals."""
    seen, todo, out = {}, list(graph.roots), []
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen[id(n)] = n
        for c in n.children:
            out.append((n.frame["name"], c.frame["name"]))
            todo.append(c)
    return sorted(n.frame["name"] for n in seen.values()), sorted(out), sorted(r.frame["name"] for r in graph.roots)

def reach(g):
    out = {}
    for layer in reversed(g.layers):
        for i in layer:
            out[i] = {i}.union(*[out[c] for c in g.kids[i]]) if g.kids[i] else {i}
    return out

def squashed(g, keep):
    """Nodes and edges that are left: an edge for every way through dropped nodes only."""
    below = {}
    for layer in reversed(g.layers):
        for i in layer:
            s = set()
            for c in g.kids[i]:
                s |= {c} if c in keep else below[c]
            below[i] = s
    roots, todo, seen = set(), list(g.roots), set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        if i in keep:
            roots.add(i)
        else:
            todo.extend(g.kids[i])
    return {(i, c) for i in keep for c in below[i]}, roots

def case(ctx, rng):
    from hatchet import GraphFrame
    from hatchet import query as Q
    g = layered(rng, rng.choice([10 ** 8, 10 ** 9, 10 ** 11]))
    n, names = len(g.names), g.names
    budget = 100 * (n + len(g.edges)) ** 2
    below = reach(g)
    shape = dict(nodes=n, edges=len(g.edges), paths=g.paths, layers=len(g.layers))
    whole = (sorted(names), sorted((names[p], names[c]) for p, c in g.edges), sorted(names[r] for r in g.roots))
    used = {}
    def run(what, f, times=1):
        try:
            r, k = lines(f, budget * times)
        except Budget:
            raise Violation("work:" + what, "%s ran more than %d lines of hatchet on %d nodes and %d edges (%.0e call paths)" % (what, budget * times, n, len(g.edges), g.paths), shape)
        ctx.hit("operations"); ctx.hit("op_" + what)
        used[what] = max(k, used.get(what, 0))
        return r
    gf = run("build", lambda: build(g))
    def same(what, graph):
        ctx.equal(edges_of(graph), whole, "graph:" + what, "%s: nodes, edges, roots" % what, **shape)
    def column(frame, c="time"):
        return {nd.frame["name"]: v for nd, v in zip(frame.dataframe.index, frame.dataframe[c].tolist())}
    keep_p = rng.choice([0.3, 0.6, 0.9])
    keep = {i for i in range(n) if rng.random() < keep_p} or {g.roots[0]}
    kept = {names[i] for i in keep}
    def check_kept(what, out):
        e, roots = squashed(g, keep)
        ctx.equal(edges_of(out.graph), (sorted(kept), sorted((names[a], names[b]) for a, b in e), sorted(names[r] for r in roots)) if not roots & {b for a, b in e} else edges_of(out.graph),
                  "graph:" + what, "%s: nodes, edges, roots" % what, **shape)
        ctx.equal(sorted(nd.frame["name"] for nd in out.dataframe.index), sorted(kept), "rows:" + what, "rows after %s" % what, **shape)
        k, sums = None, column(out, "time (inc)")
        deep = {}
        todo = {}
        for layer in reversed(g.layers):
            for i in layer:
                if i in keep:
                    deep[i] = {i}.union(*[deep[b] for a, b in e if a == i])
        for i in keep:
            ctx.equal(sums[names[i]], sum(g.time[j] for j in deep[i]), "sums:" + what, "inclusive value after %s" % what, **shape)
    def op_traverse():
        order = rng.choice(["pre", "post"])
        got = run("traverse", lambda: list(gf.graph.traverse(order=order)))
        ctx.equal(sorted(x.frame["name"] for x in got), sorted(names), "traverse", "nodes visited in %s-order" % order, **shape)
        got = run("node_traverse", lambda: list(gf.graph.roots[0].traverse(order=order)))
        ctx.equal(sorted(x.frame["name"] for x in got), sorted(names[j] for j in below[next(i for i in g.roots if names[i] == gf.graph.roots[0].frame["name"])]), "traverse", "nodes visited from a root", **shape)
        ctx.equal(run("len", lambda: len(gf.graph)), n, "len", "number of nodes", **shape)
        ctx.expect(not run("is_tree", gf.graph.is_tree), "is_tree", "a shared graph is no tree")
    def op_copy():
        same("graph_copy", run("graph_copy", gf.graph.copy))
        same("deepcopy", run("deepcopy", gf.deepcopy).graph)
        same("copy", run("copy", gf.copy).graph)
        other = gf.deepcopy()
        ctx.expect(run("equal", lambda: gf.graph == other.graph), "equal", "a graph equals its copy")
        h = G()
        h.__dict__.update(g.__dict__)
        h.names = list(names)
        h.names[g.layers[-1][-1]] += "other"
        third = build(h)
        ctx.expect(not run("equal", lambda: gf.graph == third.graph), "equal", "a graph differs from one with another name in its last layer")
        run("normalize", lambda: other.graph.normalize())
        ctx.equal(sorted(x._hatchet_nid for x in other.graph.traverse()), list(range(n)), "normalize", "node ids")
    def op_union():
        other = build(g)
        u = run("union", lambda: gf.graph.union(other.graph))
        same("union", u)
        f = run("add", lambda: gf + other)
        same("add", f.graph)
        got = column(f)
        for i in range(n):
            ctx.equal(got[names[i]], 2 * g.time[i], "sums:add", "sum of a metric", **shape)
        a = gf.deepcopy()
        run("isub", lambda: a.__isub__(other))
        same("isub", a.graph)
    def op_squash():
        full = run("update_inclusive", lambda: gf.deepcopy())
        run("update_inclusive", lambda: full.update_inclusive_columns())
        got = column(full, "time (inc)")
        for i in range(n):
            ctx.equal(got[names[i]], sum(g.time[j] for j in below[i]), "sums:inclusive", "inclusive value", **shape)
        check_kept("filter", run("filter", lambda: gf.filter(lambda r: r["name"] in kept, num_procs=1)))
        part = run("filter", lambda: gf.filter(lambda r: r["name"] in kept, squash=False, num_procs=1))
        check_kept("squash", run("squash", lambda: part.squash()))
        sub = gf.deepcopy()
        run("subtree_sum", lambda: sub.subtree_sum(["time"], ["ways"]))
        ways = {}
        for layer in reversed(g.layers):
            for i in layer:
                ways[i] = g.time[i] + sum(ways[c] for c in g.kids[i])
        got = column(sub, "ways")
        for i in range(n):
            ctx.equal(got[names[i]], ways[i], "sums:subtree", "sum over all call paths", **shape)
    def op_export():
        text = run("tree", lambda: gf.tree(metric_column="time"))
        ctx.expect(isinstance(text, str) and all(x in text for x in names), "tree", "every function is in the tree")
        dot = run("to_dot", lambda: gf.to_dot("time"))
        ctx.expect(all(x in dot for x in names), "to_dot", "every function is in the DOT output")
        lit = run("to_literal", gf.to_literal)
        same("from_literal", run("from_literal", lambda: GraphFrame.from_literal(lit)).graph)
        text = run("to_json", gf.to_json)
        same("from_json", run("from_json", lambda: GraphFrame.from_json(text)).graph)
        run("to_dict", gf.to_dict)
        if rng.random() < 0.4:
            p = os.path.join(ctx.tmpdir(), "x.h5")
            run("to_hdf", lambda: gf.to_hdf(p))
            same("from_hdf", run("from_hdf", lambda: GraphFrame.from_hdf(p)).graph)
    def op_query():
        a = rng.randrange(n)
        c = rng.choice(g.kids[a]) if g.kids[a] else a
        form = rng.choice(["base", "object", "string"])
        pair = [names[a], names[c]] if c != a else [names[a]]
        if form == "base":
            q = Q.Query().match(".", lambda r: r["name"] == pair[0])
            for w in pair[1:]:
                q.rel(".", lambda r, w=w: r["name"] == w)
        elif form == "object":
            q = Q.ObjectQuery([(".", {"name": "^%s$" % w}) for w in pair])
        else:
            q = 'MATCH %s WHERE %s' % ("->".join('(".", v%d)' % k for k in range(len(pair))), " AND ".join('v%d."name" = "%s"' % (k, w) for k, w in enumerate(pair)))
        out = run("query", lambda: gf.filter(q, squash=False, num_procs=1))
        ctx.equal(sorted(x.frame["name"] for x in out.dataframe.index), sorted(pair), "query", "nodes of a query for a caller and its callee", **shape)
        out = run("query_edges", lambda: gf.filter(Q.Query().match(".", lambda r: r["time"] >= 2).rel("."), squash=False, num_procs=1))
        want = {x for i in range(n) if g.time[i] >= 2 for c in g.kids[i] for x in (names[i], names[c])}
        if want:
            ctx.equal(sorted(x.frame["name"] for x in out.dataframe.index), sorted(want), "query", "callers of a slow kind and their callees", **shape)
    def op_group():
        out = run("groupby", lambda: gf.groupby_aggregate("module", {"time": "sum"}))
        got = column(out)
        for k in range(5):
            mem = [i for i in range(n) if i % 5 == k]
            if mem:
                ctx.equal(got["m%d" % k], sum(g.time[i] for i in mem), "sums:groupby", "sum of a group", **shape)
        f = gf.deepcopy()
        run("drop_index_levels", f.drop_index_levels)
        same("drop_index_levels", f.graph)
    def op_read():
        f = os.path.join(ctx.tmpdir(), "x.dot")
        with open(f, "w") as fh:
            fh.write("digraph {\n\tgraph [fontname=Arial];\n")
            for i in range(n):
                fh.write('\t%s [color="#0d1074", label="%s\\n%.2f%%\\n(%.2f%%)"];\n' % (names[i], names[i], 50.0, g.time[i]))
            for a in range(n):
                for b in g.kids[a]:
                    fh.write('\t%s -> %s [label="0.79%%\\n1"];\n' % (names[a], names[b]))
            fh.write("}\n")
        same("from_gprof_dot", run("from_gprof_dot", lambda: GraphFrame.from_gprof_dot(f)).graph)
        import marshal
        stats = {("f.py", i + 1, names[i]): (1, 1, g.time[i], 5.0, {("f.py", p + 1, names[p]): (1, 1, 1.0, 2.0) for p in range(n) if i in g.kids[p]}) for i in range(n)}
        f2 = os.path.join(ctx.tmpdir(), "x.pstats")
        with open(f2, "wb") as fh:
            marshal.dump(stats, fh)
        same("from_cprofile", run("from_cprofile", lambda: GraphFrame.from_cprofile(f2)).graph)
    for op in (op_read, op_traverse, op_copy, op_union, op_squash, op_export, op_query, op_group):
        op()
    ctx.hit("paths_1e10", g.paths >= 10 ** 10)
    ctx.hit("two_roots", len(g.roots) > 1)
    ctx.nontrivial(n, len(g.edges), g.paths, tuple(sorted(g.edges)))
    top = max(used, key=used.get)
    ctx.sample(dict(shape, lines={k: used[k] for k in sorted(used)}, budget=budget, largest=[top, round(used[top] / budget, 3)]))

SCENARIOS = [("shared", case, 40, 300)]
