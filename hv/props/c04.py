import copy, pickle
from .. import gen, obs
RULE = "random graphframes (tree/forest/DAG/node-order, single and multi-index, NaN, metadata), copied then mutated on either side with 1-4 random mutations; non-trivial = >=2 nodes and >=1 mutation observed on the mutated side"
REQUIRED = {"deepcopies": 200, "shallow": 200, "graph_copies": 200, "pickle": 80, "mutations": 800, "node_order": 20}

def gen_case(rng):
    m = gen.gen_graph(rng, unique=rng.random() < 0.8, rich=rng.random() < 0.5, max_n=10)
    gen.gen_rows(rng, m)
    if rng.random() < 0.2:
        m.node_order = rng.sample(range(3 * len(m.frames)), len(m.frames))
        g, nodes = build_ordered(m)
        gf, _ = gen.build(m, graph=(g, nodes))
        return m, gf, nodes
    gf, nodes = gen.build(m)
    return m, gf, nodes

def build_ordered(m):
    from hatchet.graph import Graph
    from hatchet.node import Node
    from hatchet.frame import Frame
    nodes = [Node(Frame(dict(f)), hnid=m.node_order[i]) for i, f in enumerate(m.frames)]
    for i, cs in enumerate(m.children):
        for c in cs:
            nodes[i].add_child(nodes[c]); nodes[c].add_parent(nodes[i])
    g = Graph([nodes[r] for r in m.roots])
    g.node_ordering = True
    g.enumerate_traverse()
    return g, nodes

def iso(ctx, a, b, key):
    """a and b isomorphic with the same child order, numbering and depth; returns id map."""
    mp = {}
    def go(x, y):
        if id(x) in mp:
            ctx.expect(mp[id(x)] is y, key, "sharing differs at %r" % x)
            return
        mp[id(x)] = y
        ctx.expect(x is not y, key, "node object %r is shared" % x)
        ctx.expect(x.frame is not y.frame and x.frame.attrs is not y.frame.attrs, key, "frame of %r is shared" % x)
        ctx.equal(y.frame.attrs, x.frame.attrs, key, "frame attributes")
        ctx.equal(len(y.children), len(x.children), key, "number of children of %r" % x)
        ctx.expect(x.children is not y.children and x.parents is not y.parents, key, "child list of %r is shared" % x)
        for p, q in zip(x.children, y.children):
            go(p, q)
    ctx.equal(len(b.roots), len(a.roots), key, "number of roots")
    ctx.expect(a.roots is not b.roots, key, "root list shared")
    for x, y in zip(a.roots, b.roots):
        go(x, y)
    inv = {id(v) for v in mp.values()}
    ctx.equal(len(inv), len(mp), key, "two nodes mapped to one")
    return mp

def graph_copy(ctx, rng):
    m, gf, nodes = gen_case(rng)
    g = gf.graph
    before = obs.snap_graph(g)
    o2n = {}
    how = rng.random() < 0.7
    c = g.copy(o2n) if how else g.copy()
    ctx.hit("graph_copies")
    ctx.expect(obs.diff(before, obs.snap_graph(g)) is None, "graph-copy-mutates", "copying changed the original graph")
    mp = iso(ctx, g, c, "graph-copy")
    obs.check_graph(ctx, c, "copied graph")
    ctx.expect(c == g and not (c != g), "graph-copy-equal", "copy not equal to the original")
    ctx.equal(c.node_ordering, g.node_ordering, "graph-copy-ordering", "node ordering flag")
    ctx.equal(bool(c.is_tree()), bool(g.is_tree()), "graph-copy", "is_tree")
    if how:
        ctx.equal(len(o2n), len(nodes), "old_to_new", "size of the map")
        for n in nodes:
            ctx.expect(n in o2n and o2n[n] is mp[id(n)], "old_to_new", "map entry of %r" % n)
    if g.node_ordering:
        ctx.hit("node_order")
    if g.node_ordering or unique_sibs(m):
        for n in nodes:
            ctx.equal(mp[id(n)]._hatchet_nid, n._hatchet_nid, "graph-copy-nid", "numbering of %r" % n)
    # independence
    b = obs.snap_graph(g); mutate_graph(ctx, rng, c)
    ctx.expect(obs.diff(b, obs.snap_graph(g)) is None, "graph-copy-leak", "changing the copy changed the original: %s" % obs.diff(b, obs.snap_graph(g)))
    b = obs.snap_graph(c); mutate_graph(ctx, rng, g)
    ctx.expect(obs.diff(b, obs.snap_graph(c)) is None, "graph-copy-leak", "changing the original changed the copy")
    ctx.nontrivial(m.shape_sig())

def unique_sibs(m):
    def u(xs):
        return len({m.key(x) for x in xs}) == len(xs)
    return u(m.roots) and all(u(c) for c in m.children)

def mutate_graph(ctx, rng, g):
    from hatchet.node import Node
    from hatchet.frame import Frame
    ns = obs.nodes_of(g)
    for _ in range(rng.randint(1, 3)):
        n = rng.choice(ns)
        k = rng.randrange(4)
        if k == 0:
            n.frame.attrs["mutated"] = rng.random()
        elif k == 1:
            x = Node(Frame(name="new")); n.add_child(x); x.add_parent(n)
        elif k == 2:
            g.roots.append(Node(Frame(name="newroot")))
        else:
            n._hatchet_nid += 1000
        ctx.hit("mutations")

def mutate_gf(ctx, rng, gf, shallow=False):
    df = gf.dataframe
    k = rng.randrange(8 if not shallow else 5)
    if k == 0:
        gf.exc_metrics.append("new_metric")
    elif k == 1:
        gf.inc_metrics.append("new_inc")
    elif k == 2:
        gf.metadata["added"] = 1
    elif k == 3:
        df["new_column"] = 7
    elif k == 4:
        gf.default_metric = "other"
    elif k == 5 and len(df):
        df.iloc[rng.randrange(len(df)), list(df.columns).index(rng.choice(gf.exc_metrics[:1]))] = 12345.0
    elif k == 6:
        if isinstance(gf.metadata.get("nested"), dict):
            gf.metadata["nested"]["a"].append(3); gf.metadata["nested"]["b"] = 1
        else:
            try:
                df.drop(index=df.index[:1], inplace=True)
            except KeyError:            # an earlier mutation renumbered the node: pandas cannot look its row up
                df.insert(0, "dropped", 1)
    else:
        mutate_graph(ctx, rng, gf.graph)
    ctx.hit("mutations")
    return k

def deep(ctx, rng):
    m, gf, nodes = gen_case(rng)
    b = obs.snap(gf)
    how = rng.choice(["deepcopy", "deepcopy", "deepcopy", "pickle"])
    c = gf.deepcopy() if how == "deepcopy" else pickle.loads(pickle.dumps(gf, rng.choice([2, 4, 5])))
    ctx.hit("deepcopies"); ctx.hit(how)
    obs.expect_unchanged(ctx, b, gf, "deepcopy-mutates", how)
    ctx.expect(c is not gf and c.graph is not gf.graph and c.dataframe is not gf.dataframe, "deepcopy-shares", "shared object")
    mp = iso(ctx, gf.graph, c.graph, "deepcopy-graph")
    obs.check_gf(ctx, c, "deep copy")
    sa, sb = obs.snap_df(gf.dataframe), obs.snap_df(c.dataframe)
    inv = {id(v): k for k, v in mp.items()}
    npos = sa["index_names"].index("node")
    for t in sb["index"]:
        ctx.expect(t[npos] in inv, "deepcopy-nodes", "copied dataframe refers to a node that is not the copy's own")
    sb["index"] = [tuple(inv[x] if i == npos else x for i, x in enumerate(t)) for t in sb["index"]]
    key = lambda s: sorted(range(len(s["index"])), key=lambda i: tuple(map(repr, s["index"][i])))
    for s in (sa, sb):      # row order is not promised
        o = key(s); s["index"] = [s["index"][i] for i in o]; s["values"] = [[col[i] for i in o] for col in s["values"]]
    d = obs.diff(sa, sb)
    ctx.expect(d is None, "deepcopy-rows", "rows differ: %s" % d)
    ctx.equal((c.exc_metrics, c.inc_metrics, c.default_metric, c.metadata),
              (gf.exc_metrics, gf.inc_metrics, gf.default_metric, gf.metadata), "deepcopy-meta", "metric lists / default metric / metadata")
    if len(nodes) >= 2:
        ctx.nontrivial(m.shape_sig(), m.levels)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.5:
            b = obs.snap(gf); k = mutate_gf(ctx, rng, c)
            obs.expect_unchanged(ctx, b, gf, "deepcopy-leak", "mutation %d of the copy" % k)
        else:
            b = obs.snap(c); k = mutate_gf(ctx, rng, gf)
            obs.expect_unchanged(ctx, b, c, "deepcopy-leak", "mutation %d of the original" % k)
    ctx.sample({"shape": m.shape_sig(), "levels": m.levels, "metadata": m.metadata})

def shallow(ctx, rng):
    m, gf, nodes = gen_case(rng)
    b = obs.snap(gf)
    c = gf.copy()
    ctx.hit("shallow")
    obs.expect_unchanged(ctx, b, gf, "copy-mutates", "copy")
    ctx.expect(c.graph is gf.graph, "copy-graph", "a shallow copy shares the graph")
    ctx.expect(c is not gf and c.dataframe is not gf.dataframe, "copy-shares", "shared dataframe object")
    d = obs.diff(b, obs.snap(c))
    ctx.expect(d is None, "copy-equal", "shallow copy differs: %s" % d)
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.5:
            b = obs.snap(gf); k = mutate_gf(ctx, rng, c, True)
            obs.expect_unchanged(ctx, b, gf, "copy-leak", "mutation %d of the copy" % k)
        else:
            b = obs.snap(c); k = mutate_gf(ctx, rng, gf, True)
            obs.expect_unchanged(ctx, b, c, "copy-leak", "mutation %d of the original" % k)
    if len(nodes) >= 2:
        ctx.nontrivial("sh", m.shape_sig(), m.levels)

def derived(ctx, rng):
    """Deep copies of derived frames (filtered, unsquashed: rows cover part of the graph)."""
    m, gf, nodes = gen_case(rng)
    keep = {nodes[i].frame.attrs["name"] for i in range(len(nodes)) if rng.random() < 0.6}
    from hatchet.graphframe import EmptyFilter
    try:
        f = gf.filter(lambda r: r["name"] in keep, squash=False, num_procs=1)
    except EmptyFilter:
        return
    c = f.deepcopy()
    ctx.hit("deepcopies")
    obs.check_gf(ctx, c, "deep copy of a filtered frame")
    mp = iso(ctx, f.graph, c.graph, "deepcopy-graph")
    inv = {id(v): k for k, v in mp.items()}
    ctx.equal(obs.rows_by(c, lambda n: inv.get(id(n))), obs.rows_by(f, id), "deepcopy-rows", "rows of filtered frame")
    b = obs.snap(gf); mutate_gf(ctx, rng, c)
    obs.expect_unchanged(ctx, b, gf, "deepcopy-leak", "mutation of a deep copy of a derived frame")
    ctx.nontrivial("d", m.shape_sig(), sorted(keep))

SCENARIOS = [("graph", graph_copy, 2000, 8000), ("deep", deep, 2000, 8000), ("shallow", shallow, 1500, 6000), ("derived", derived, 750, 3000)]
