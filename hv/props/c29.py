import copy, json, warnings
from .. import gen, obs
RULE = ("random graphs (trees, forests, DAGs, cycles; rich frames; single and multi-index; NaN and infinite metric values) x name column, rank, thread, categorical columns; "
        "oracle = recursive description of the model (children in sorted order, listed at the first occurrence of a node); re-read with from_literal; non-trivial = >=3 nodes")
REQUIRED = {"exports": 500, "json": 450, "integers": 30, "multi_index": 150, "dags": 100, "forests": 80, "cycles": 40, "nonfinite": 200, "cat_columns": 150, "label_column": 60, "reread": 300, "rich": 150, "twins": 25}
INF = float("inf")

def fsort(attrs):
    return tuple(sorted({**{"type": "None"}, **attrs}.items()))

def case(ctx, rng):
    from hatchet import GraphFrame
    kind = rng.choice(["tree", "forest", "dag", "dagforest"])
    rich = rng.random() < 0.35
    unique = rng.random() < 0.7
    m = gen.gen_graph(rng, kind=kind, unique=unique, rich=rich, max_n=rng.choice([1, 6, 12, 20]), max_paths=200)
    n = len(m.frames)
    ctx.hit("rich", rich)
    if kind.startswith("dag") and rng.random() < 0.35:
        ctx.hit("cycles", gen.add_back_edge(rng, m))
    lv = rng.choice([(), (), ("rank",), ("thread",), ("rank", "thread")])
    exc = rng.choice([("time",), ("time", "bytes"), ("bytes", "misses", "time")])
    inc = rng.choice([("time (inc)",), ("time (inc)", "bytes (inc)")])
    gen.gen_rows(rng, m, levels=lv, exc=exc, inc=inc, nanp=0.1, ragged=False)
    for r in m.rows.values():
        for c in exc + inc:
            if rng.random() < 0.06:
                r[c] = rng.choice([INF, -INF])
            if r[c] != r[c] or abs(r[c]) == INF:
                ctx.hit("nonfinite")
    kw, namecol, cats = {}, "name", []
    if rng.random() < 0.2:
        namecol = kw["name"] = "label"
        m.columns.append("label")
        for k, r in m.rows.items():
            r["label"] = "lab%d@%s" % (k[0], k[1])
        ctx.hit("label_column")
    if rng.random() < 0.4:
        cats = rng.sample(["module", "nid", "nosuch", "name"], rng.randint(1, 3))
        kw["cat_columns"] = list(cats)
        ctx.hit("cat_columns")
    at = rng.choice(sorted({k[1] for k in m.rows}))
    for l, v in zip(lv, at):
        if v or rng.random() < 0.5:
            kw[l] = v
    gf, nodes = gen.build(m)
    before = obs.snap(gf)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lit = gf.to_literal(**kw)
    obs.expect_unchanged(ctx, before, gf, "literal-mutates", "to_literal")
    ctx.equal(kw.get("cat_columns", cats), cats, "literal-arg", "the list of categorical columns was changed")
    try:                                    # the literal is made for visualizations, which get it as JSON
        ctx.hit("json", json.loads(json.dumps(lit)) == lit)
    except TypeError as e:
        ctx.expect(False, "literal-json", "the literal cannot be written as JSON: %s" % e)
    ctx.hit("integers", any(isinstance(r[c], int) for r in m.rows.values() for c in exc + inc))
    ctx.hit("exports"); ctx.hit("multi_index", bool(lv)); ctx.hit("dags", kind.startswith("dag")); ctx.hit("forests", len(m.roots) > 1)
    fin = lambda v: 0.0 if v != v or abs(v) == INF else v
    listed = set()
    order = lambda ids: sorted(ids, key=lambda i: fsort(m.frames[i]))
    num = {i: x._hatchet_nid for i, x in enumerate(nodes)}
    def pair(ids, found, nid, where):
        """Siblings in frame order; those of equal frames (any order) are told apart by their ids."""
        by = {nid(f): f for f in found}
        ctx.equal(sorted(by), sorted(num[i] for i in ids), "literal-children", "children of %s" % where)
        return [(i, by[num[i]]) for i in ids]
    def check(i, d, where):
        r = m.rows[(i, at)]
        ctx.equal(set(d) - {"children"}, {"name", "frame", "metrics", "attributes"}, "literal-keys", "keys at %s" % where)
        ctx.equal(d["name"], r[namecol], "literal-name", "name at %s" % where)
        ctx.equal(dict(d["frame"]), {**{"type": "None"}, **m.frames[i]}, "literal-frame", "frame at %s" % where)
        want = {c: fin(r[c]) for c in exc + inc}
        want["_hatchet_nid"] = nodes[i]._hatchet_nid
        ctx.equal(d["metrics"], want, "literal-metrics", "metrics at %s" % where)
        ctx.equal(d["attributes"], {c: r[c] for c in cats if c != "nosuch"}, "literal-attributes", "attributes at %s" % where)
        if i in listed or not m.children[i]:
            ctx.equal(d.get("children", []), [], "literal-children", "children listed again at %s" % where)
            return
        listed.add(i)
        cs = order(m.children[i])
        ctx.equal(len(d.get("children", [])), len(cs), "literal-children", "number of children at %s" % where)
        ctx.equal([fsort(e["frame"]) for e in d["children"]], [fsort(m.frames[c]) for c in cs], "literal-children", "order of the children at %s" % where)
        for c, e in pair(cs, d["children"], lambda e: e["metrics"]["_hatchet_nid"], where):
            check(c, e, where + "/" + m.frames[c]["name"])
    rs = order(m.roots)
    ctx.equal(len(lit), len(rs), "literal-roots", "number of roots")
    ctx.equal([fsort(d["frame"]) for d in lit], [fsort(m.frames[i]) for i in rs], "literal-roots", "order of the roots")
    for r, d in pair(rs, lit, lambda e: e["metrics"]["_hatchet_nid"], "the roots"):
        check(r, d, m.frames[r]["name"])
    if n >= 3:
        ctx.nontrivial(m.shape_sig(), sorted(map(str, kw.items())))
    # reading it back
    g2 = GraphFrame.from_literal(copy.deepcopy(lit))
    ctx.hit("reread")
    to = {}
    def walk(i, x):
        if i in to:
            ctx.expect(to[i] is x, "reread-share", "node %d is read as two nodes" % i)
            return
        to[i] = x
        ctx.equal(dict(x.frame.attrs), {**{"type": "None"}, **m.frames[i]}, "reread-frame", "frame of node %d" % i)
        cs = order(m.children[i])
        ctx.equal(len(x.children), len(cs), "reread-edges", "children of node %d" % i)
        for c, k in pair(cs, x.children, lambda k: k._hatchet_nid, "node %d read back" % i):
            walk(c, k)
    ctx.equal(len(g2.graph.roots), len(rs), "reread-roots", "roots")
    for r, x in pair(rs, g2.graph.roots, lambda k: k._hatchet_nid, "the graph read back"):
        walk(r, x)
    ctx.equal(len({id(x) for x in to.values()}), n, "reread-split", "nodes")
    twins = any(len({m.key(c) for c in cs}) < len(cs) for cs in m.children + [m.roots])
    ctx.hit("twins", twins)
    ctx.expect(twins or g2.graph == gf.graph, "reread-equal", "the graph read back is not equal to the exported one")
    back = {id(x): i for i, x in to.items()}
    rows = obs.rows_by(g2, lambda x: back.get(id(x), "foreign"))
    ctx.equal(set(rows), {(i, ()) for i in range(n)}, "reread-rows", "rows")
    for i in range(n):
        for c in exc + inc:
            ctx.equal(rows[(i, ())][c], fin(m.rows[(i, at)][c]), "reread-value", "%s of node %d" % (c, i))
    ctx.equal((sorted(g2.exc_metrics), sorted(g2.inc_metrics)), (sorted(exc), sorted(inc)), "reread-metrics", "metric lists")
    ctx.sample({"nodes": n, "options": {k: str(v) for k, v in kw.items()}})

SCENARIOS = [("literal", case, 4000, 12000)]
