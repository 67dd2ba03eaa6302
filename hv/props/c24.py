import json
from .. import gen, obs
from ..core import same
RULE = ("random graphframes (trees, forests, DAGs, nodes shared between roots, equal-frame siblings; single and multi-index, ragged or without rows for some nodes; NaN, infinities, None, "
        "odd texts; ids permuted) -> to_json / to_dict -> JSON text -> from_json; oracle = the frame itself, node by node; non-trivial = >=3 nodes")
REQUIRED = {"roundtrips": 400, "shared_roots": 30, "multi_index": 150, "dags": 100, "missing": 150, "infinite": 40, "permuted_ids": 80, "node_without_rows": 40, "derived": 60, "valueless": 30}
TEXTS = ['quote"d', "back\\slash", "tab\tnew\nline", "ünïcødé ☃", "", "{'name': 'x'}", "None", "7", "a long text, " * 30]

def decorate(rng, m):
    for f in m.frames:
        if rng.random() < 0.15:
            f["note"] = rng.choice(TEXTS)
        if rng.random() < 0.1:
            f["weight"] = rng.choice([0, -1, 2.5, True])
    if rng.random() < 0.15:
        i = rng.randrange(len(m.frames))
        new = "%s<%s>" % (m.frames[i]["name"], ", ".join(["double"] * rng.choice([8, 40])))
        m.frames[i]["name"] = new
        for k, r in m.rows.items():
            if k[0] == i:
                r["name"] = new
    if rng.random() < 0.4:
        m.columns.append("label")
        for r in m.rows.values():
            r["label"] = rng.choice(TEXTS + [None])
    if rng.random() < 0.3:
        m.columns.append("count")
        for r in m.rows.values():
            r["count"] = rng.randint(-5, 10 ** 15)
    if rng.random() < 0.25:
        for k in rng.sample(sorted(m.rows), min(2, len(m.rows))):
            m.rows[k][rng.choice(m.exc + m.inc)] = rng.choice([float("inf"), float("-inf"), 1e300, 1e-300])

def make(ctx, rng):
    """A random frame to export; also derived ones (results of operations)."""
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "forest", "dag", "dagforest", "dagforest"]), unique=rng.random() < 0.8, rich=rng.random() < 0.5, max_n=rng.choice([1, 4, 10, 18]))
    exc, inc = rng.choice([("time",), ("time", "bytes"), ()]), rng.choice([("time (inc)",), ("time (inc)", "bytes (inc)"), ()])
    gen.gen_rows(rng, m, exc=exc or (() if inc else ("time",)), inc=inc, nanp=rng.choice([0, 0.2, 0.7, 1]))
    decorate(rng, m)
    if rng.random() < 0.15 and len(m.frames) > 2:
        i = rng.randrange(len(m.frames))
        keep = {k: v for k, v in m.rows.items() if k[0] != i}
        if keep:
            m.rows = keep
            ctx.hit("node_without_rows")
    gf, nodes = gen.build(m)
    if rng.random() < 0.25 and len(nodes) > 1:
        p = list(range(len(nodes))); rng.shuffle(p)
        df = gf.dataframe.reset_index()
        for nd, x in zip(nodes, p):
            nd._hatchet_nid = x
        gf.graph.enumerate_depth()
        gf.dataframe = df.set_index(["node"] + list(m.levels)).sort_index()
        ctx.hit("permuted_ids")
    if rng.random() < 0.3:
        order = list(range(len(gf.dataframe))); rng.shuffle(order)
        gf.dataframe = gf.dataframe.iloc[order]
    return m, gf, nodes

def derive(ctx, rng, m, gf, nodes):
    """Sometimes the frame is itself a result."""
    uniq = all(len({m.key(c) for c in cs}) == len(cs) for cs in m.children + [m.roots])      # no merging, which may close cycles
    if rng.random() < 0.2 and uniq and all(any(k[0] == i for k in m.rows) for i in range(len(nodes))):
        r = rng.random()
        if r < 0.35:
            gf = gf.deepcopy()
        elif r < 0.7:
            gf = gf.filter(lambda x: True, num_procs=1, squash=rng.random() < 0.5, update_inc_cols=False)
        else:
            gf = gf.copy()
        ctx.hit("derived")
    return gf

def compare(ctx, a, b, what, order=True):
    """Parallel comparison of two graphframes: same structure by node id, same rows in the same order."""
    na, nb = obs.nodes_of(a.graph), obs.check_graph(ctx, b.graph, what, numbering=False)
    ctx.equal(len(nb), len(na), what + "-count", "number of nodes")
    ia, ib = {n._hatchet_nid: n for n in na}, {n._hatchet_nid: n for n in nb}
    ctx.equal(sorted(ib), sorted(ia), what + "-ids", "node ids")
    for i, n in ia.items():
        k = ib[i]
        ctx.expect(k is not n, what + "-alias", "node object is shared with the source")
        ctx.expect(same(dict(k.frame.attrs), dict(n.frame.attrs)), what + "-frame", "attributes %r, were %r" % (k.frame.attrs, n.frame.attrs))
        ctx.equal([c._hatchet_nid for c in k.children], [c._hatchet_nid for c in n.children], what + "-children", "children of node %d" % i)
        ctx.equal(sorted(c._hatchet_nid for c in k.parents), sorted(c._hatchet_nid for c in n.parents), what + "-parents", "parents of node %d" % i)
    ctx.equal([r._hatchet_nid for r in b.graph.roots], [r._hatchet_nid for r in a.graph.roots], what + "-roots", "roots")
    ctx.equal(list(b.dataframe.index.names), list(a.dataframe.index.names), what + "-index", "index names")
    ra, rb = flat(ctx, a, what), flat(ctx, b, what)
    if not order:
        ra, rb = sorted(ra, key=lambda r: r[0]), sorted(rb, key=lambda r: r[0])
    ctx.equal([r[0] for r in rb], [r[0] for r in ra], what + "-rows", "row keys")
    for x, y in zip(ra, rb):
        ctx.equal(set(y[1]), set(x[1]), what + "-columns", "columns")
        for c in x[1]:
            ctx.equal(y[1][c], x[1][c], what + "-value", "column %s of row %s" % (c, x[0]))
    ctx.equal((list(b.exc_metrics), list(b.inc_metrics)), (list(a.exc_metrics), list(a.inc_metrics)), what + "-metrics", "metric lists")

def flat(ctx, gf, what):
    """[(row key with node id, {column: value})] in row order; the row nodes are the graph's own."""
    own = {id(n) for n in obs.nodes_of(gf.graph)}
    names = list(gf.dataframe.index.names)
    cols = list(gf.dataframe.columns)
    data = [gf.dataframe.iloc[:, j].tolist() for j in range(len(cols))]
    out = []
    for i, t in enumerate(gf.dataframe.index.tolist()):
        t = t if len(names) > 1 else (t,)
        for nm, x in zip(names, t):
            if nm == "node":
                ctx.expect(id(x) in own, what + "-foreign", "row node %r is not in the graph" % (x,))
        out.append((tuple(x._hatchet_nid if nm == "node" else x for nm, x in zip(names, t)), {c: data[j][i] for j, c in enumerate(cols)}))
    return out

def case(ctx, rng):
    from hatchet import GraphFrame
    m, gf, nodes = make(ctx, rng)
    gf = derive(ctx, rng, m, gf, nodes)
    par = m.parents()
    ctx.hit("dags", any(len(p) > 1 for p in par))
    if len(m.roots) > 1:
        ds = [m.desc(r) for r in m.roots]
        ctx.hit("shared_roots", sum(len(d) for d in ds) > len(set().union(*ds)))
    ctx.hit("multi_index", bool(m.levels))
    vals = [r.get(c) for r in m.rows.values() for c in m.columns]
    ctx.hit("missing", any(v is None or v != v for v in vals)); ctx.hit("infinite", any(isinstance(v, float) and abs(v) == float("inf") for v in vals))
    if len(m.frames) >= 3:
        ctx.nontrivial(m.shape_sig(), m.levels)
    before = obs.snap(gf)
    style = rng.randrange(3)
    if style == 0:
        text = gf.to_json()
    elif style == 1:
        text = json.dumps(gf.to_dict())
    else:
        text = json.dumps(json.loads(gf.to_json()), indent=1, sort_keys=False)
    obs.expect_unchanged(ctx, before, gf, "json-input", "JSON export")
    g2 = GraphFrame.from_json(text)
    ctx.hit("roundtrips")
    compare(ctx, gf, g2, "json")
    for c in list(gf.exc_metrics) + list(gf.inc_metrics):       # numeric metrics stay numeric, also those without any value
        if gf.dataframe[c].dtype.kind in "iuf":
            ctx.expect(g2.dataframe[c].dtype.kind in "iuf", "json-dtype", "metric %s has become %s" % (c, g2.dataframe[c].dtype))
            ctx.hit("valueless", bool(gf.dataframe[c].isna().all()))
    ctx.expect(g2.graph == gf.graph, "json-equal", "graphs compare unequal") if all(len({m.key(c) for c in cs}) == len(cs) for cs in m.children + [m.roots]) else None
    a, b = json.loads(text), json.loads(g2.to_json())
    ctx.expect(same(a, b), "json-again", "second export differs", first=a, second=b)
    # the read frame is a working one
    d = g2.to_dict()
    ctx.equal(len(d["dataframe"]), len(gf.dataframe), "json-dict", "rows of the dictionary")
    ctx.equal(d["dataframe_indices"], list(gf.dataframe.index.names), "json-dict", "index names of the dictionary")
    ctx.sample({"nodes": len(nodes), "rows": len(gf.dataframe), "levels": m.levels, "style": style})

SCENARIOS = [("json", case, 4500, 20000)]
