from .. import gen, obs
from ..core import Violation
RULE = "random graphs x random survivor row sets (plus exhaustive: every tree of <=5 nodes x every survivor subset over 1-2 names); oracle = path projection onto survivors; non-trivial = some but not all nodes survive and an inner node is removed"
REQUIRED = {"squashes": 600, "merges": 80, "inner_removed": 150, "dag": 100, "new_roots": 80, "exhaustive": 500, "recorded_order": 60}

def project(m, surv):
    """survivor -> set of projected paths (keys of surviving nodes along each root path)."""
    out = {}
    def go(i, p):
        if i in surv:
            p = p + (m.key(i),)
            out.setdefault(i, set()).add(p)
        for c in m.children[i]:
            go(c, p)
    for r in m.roots:
        go(r, ())
    return out

def nearest(m, surv):
    """(edges among survivors through removed nodes only, survivors reachable from a root through removed nodes only)"""
    edges, roots = set(), set()
    def below(i, seen, acc):
        for c in m.children[i]:
            if c in surv:
                acc.add(c)
            elif c not in seen:
                seen.add(c); below(c, seen, acc)
        return acc
    for s in surv:
        for d in below(s, set(), set()):
            edges.add((s, d))
    for r in m.roots:
        if r in surv:
            roots.add(r)
        else:
            roots |= below(r, set(), set())
    return edges, roots

def survive_rows(rng, m):
    keys = list(m.rows)
    style = rng.random()
    if style < 0.7:         # whole nodes
        pr = rng.choice([0.3, 0.5, 0.8])
        s = {i for i in range(len(m.frames)) if rng.random() < pr} or {rng.randrange(len(m.frames))}
        return [k for k in keys if k[0] in s]
    pr = rng.choice([0.3, 0.6, 0.9])
    return [k for k in keys if rng.random() < pr] or [rng.choice(keys)]

def squash(ctx, rng, m, gf, nodes, keep, update=False, via=None):
    """Squash gf restricted to rows `keep`, by one of the public routes; checks the source is unchanged."""
    from hatchet.graphframe import GraphFrame
    ks = set(keep)
    nid = {id(n): i for i, n in enumerate(nodes)}
    before = obs.snap(gf)
    via = via or rng.choice(["filter", "frame", "two-step"])
    def pred(r):
        return (nid[id(r["node"])], tuple(r[l] for l in m.levels)) in ks
    if via == "filter":
        s = gf.filter(pred, squash=True, update_inc_cols=update, num_procs=1)
        src = None
    elif via == "two-step":
        src = gf.filter(pred, squash=False, num_procs=1)
        b2 = obs.snap(src)
        s = src.squash(update_inc_cols=update)
    else:
        df = gf.dataframe
        pos = list(df.index.names).index("node")
        mask = []
        for t in df.index.tolist():
            t = t if len(df.index.names) > 1 else (t,)
            mask.append((nid[id(t[pos])], tuple(x for j, x in enumerate(t) if j != pos)) in ks)
        src = GraphFrame(gf.graph, df[mask].copy(), list(gf.exc_metrics), list(gf.inc_metrics), gf.default_metric, gf.metadata)
        b2 = obs.snap(src)
        s = src.squash(update_inc_cols=update)
    if src is not None:
        d = obs.diff(b2, obs.snap(src))
        ctx.expect(d is None, "squash-mutates", "squash changed its source: %s" % d)
    obs.expect_unchanged(ctx, before, gf, "squash-mutates", "squash via " + via)
    ctx.hit("squashes")
    return s

def check_nodes(ctx, s, gf, m, what=""):
    ns = obs.nodes_of(s.graph)
    old = {id(n) for n in obs.nodes_of(gf.graph)}
    for n in ns:
        ctx.expect(id(n) not in old, "squash-reuses-node", "squashed graph contains a node of the source graph")
        ks = [obs.attrs_key(c) for c in n.children]
        ctx.expect(len(set(ks)) == len(ks), "squash-unmerged", "equal-frame siblings under %r" % n)
    ks = [obs.attrs_key(c) for c in s.graph.roots]
    ctx.expect(len(set(ks)) == len(ks), "squash-unmerged", "equal-frame roots")
    return ns

def check_tree(ctx, m, gf, s, keep, key="squash-paths"):
    """Trees and forests: exact."""
    surv = {k[0] for k in keep}
    proj = project(m, surv)
    want = {next(iter(p)) for p in proj.values()}
    check_nodes(ctx, s, gf, m)
    ps = obs.paths_by_id(s.graph)
    ctx.expect(all(len(p) == 1 for p in ps.values()), "squash-not-tree", "squashed tree has a shared node")
    got = [next(iter(p)) for p in ps.values()]
    ctx.equal(sorted(got), sorted(want), key, "call paths of the squashed graph", shape=m.shape_sig(), survivors=sorted(surv))
    obs.check_gf(ctx, s, "squashed", every_node_has_rows=True)
    if len(want) < len(surv):
        ctx.hit("merges")
    inner = [i for i in range(len(m.frames)) if i not in surv and (m.desc(i) & surv)]
    if inner:
        ctx.hit("inner_removed"); ctx.nontrivial(m.shape_sig(), sorted(surv))
    ctx.equal(bool(s.graph.node_ordering), bool(m.node_order), "squash-order", "whether the nodes have an order of their own")
    if m.node_order and len(want) == len(surv):
        ctx.hit("recorded_order")
        ids = {id(n): i for i, n in enumerate(m.nodes)}
        order = [next(iter(proj[ids[id(n)]])) for n in gf.graph.node_order_traverse() if ids[id(n)] in surv]
        ctx.equal([next(iter(ps[id(n)])) for n in s.graph.node_order_traverse()], order, "squash-order", "recorded order of the surviving nodes", shape=m.shape_sig())
    if {p for p in want if len(p) == 1} != {(m.key(r),) for r in m.roots}:
        ctx.hit("new_roots")
    # which rows exist
    rows = obs.rows_by_path(s)
    wk = {(frozenset([next(iter(proj[i]))]), c) for i, c in keep}
    ctx.equal(set(rows), wk, "squash-rows", "row keys of the squashed frame", shape=m.shape_sig(), keep=keep)

def trees(ctx, rng):
    m, gf, nodes = gen.gen_gf(rng, kind=rng.choice(["tree", "tree", "forest"]), unique=rng.random() < 0.6, max_n=rng.choice([5, 10, 16]),
                              names=rng.sample(gen.NAMES, rng.choice([1, 2, 3, 6])) if rng.random() < 0.7 else None, ordered=0.2)
    m.nodes = nodes
    keep = survive_rows(rng, m)
    s = squash(ctx, rng, m, gf, nodes, keep)
    check_tree(ctx, m, gf, s, keep)
    ctx.sample({"shape": m.shape_sig(), "survivors": sorted({k[0] for k in keep}), "result": sorted(map(str, obs.all_paths(s.graph)))[:5]})
    # squashing again changes nothing
    t = s.squash(update_inc_cols=False)
    ctx.equal(obs.canon(t.graph), obs.canon(s.graph), "squash-idempotent", "second squash")
    ctx.equal(set(obs.rows_by_path(t)), set(obs.rows_by_path(s)), "squash-idempotent", "rows after a second squash")

EXH = []
def exh_cases():
    if not EXH:
        for n in (2, 3, 4, 5):
            for par in gen.all_trees(n):
                EXH.append((n, par))
    return EXH

def exhaustive(ctx, rng):
    """One tree shape, all survivor subsets."""
    cs = exh_cases()
    n, par = cs[ctx.case["index"] % len(cs)]
    names = [rng.choice("ab") for _ in range(n)] if ctx.case["index"] >= len(cs) else ["n%d" % i for i in range(n)]
    m = gen.tree_from_parents(par, [{"name": x, "type": "function"} for x in names])
    gen.gen_rows(rng, m, levels=())
    gf, nodes = gen.build(m)
    m.nodes = nodes
    for mask in range(1, 2 ** n):
        keep = [(i, ()) for i in range(n) if mask >> i & 1]
        s = squash(ctx, rng, m, gf, nodes, keep, via="frame")
        check_tree(ctx, m, gf, s, keep)
        ctx.hit("exhaustive")

def dag_unique(ctx, rng):
    """DAGs in which every frame is distinct: no merging, exact edge relation."""
    m = gen.gen_graph(rng, kind=rng.choice(["dag", "dagforest"]), max_n=rng.choice([5, 9, 14]))
    m.frames = [{"name": "n%d_%s" % (i, f["name"]), "type": "function"} for i, f in enumerate(m.frames)]
    gen.gen_rows(rng, m)
    gf, nodes = gen.build(m)
    keep = survive_rows(rng, m)
    surv = {k[0] for k in keep}
    s = squash(ctx, rng, m, gf, nodes, keep)
    ns = check_nodes(ctx, s, gf, m)
    key2i = {m.key(i): i for i in range(len(m.frames))}
    ctx.equal(sorted(key2i[obs.attrs_key(n)] for n in ns), sorted(surv), "squash-nodes", "nodes of the squashed DAG")
    edges, roots = nearest(m, surv)
    got = {(key2i[obs.attrs_key(n)], key2i[obs.attrs_key(c)]) for n in ns for c in n.children}
    ctx.equal(got, edges, "squash-edges", "edges of the squashed DAG", shape=m.shape_sig(), survivors=sorted(surv))
    gp = {(key2i[obs.attrs_key(p)], key2i[obs.attrs_key(n)]) for n in ns for p in n.parents}
    ctx.equal(gp, edges, "squash-edges", "parent links of the squashed DAG")
    gr = {key2i[obs.attrs_key(n)] for n in s.graph.roots}
    ctx.equal(gr, roots, "squash-roots", "roots of the squashed DAG", shape=m.shape_sig(), survivors=sorted(surv))
    nid = {id(n): key2i[obs.attrs_key(n)] for n in ns}
    ctx.equal(set(obs.rows_by(s, lambda n: nid[id(n)])), set(keep), "squash-rows", "rows of the squashed DAG")
    ids = [n._hatchet_nid for n in ns]
    ctx.equal(sorted(ids), list(range(len(ns))), "squash-numbering", "node ids")
    ctx.equal(bool(s.graph.node_ordering), bool(m.node_order), "squash-order", "whether the nodes have an order of their own")
    ctx.hit("dag")
    if any(i not in surv and m.desc(i) & surv for i in range(len(m.frames))):
        ctx.hit("inner_removed"); ctx.nontrivial("dag", m.shape_sig(), sorted(surv))

def dag_merge(ctx, rng):
    """DAGs with repeated frames (ranked so that merging cannot form a cycle): no path lost, siblings merged."""
    uniq = rng.random() < 0.4            # otherwise the source has equal-frame siblings, whose merging chains from parent to parent
    m = gen.rank_names(rng, gen.gen_graph(rng, kind=rng.choice(["dag", "dagforest"]), max_n=rng.choice([5, 9, 14]), max_paths=80), suffixes=rng.choice(["a", "ab"]), unique=uniq)
    gen.gen_rows(rng, m)
    gf, nodes = gen.build(m)
    keep = survive_rows(rng, m)
    surv = {k[0] for k in keep}
    s = squash(ctx, rng, m, gf, nodes, keep)
    ns = check_nodes(ctx, s, gf, m)
    proj = project(m, surv)
    got = obs.all_paths(s.graph)
    want = set().union(*proj.values())
    ctx.expect(want <= got, "squash-lost-path", "call path lost: %s" % sorted(want - got)[:2])
    ctx.hit("dag")
    ps = obs.paths_by_id(s.graph)
    node_at = {p: k for k, v in ps.items() for p in v}
    rows = obs.rows_by(s, lambda n: id(n) if id(n) in ps else "foreign")
    wk = set()
    for i, c in keep:
        tgt = {node_at[p] for p in proj[i]}
        ctx.equal(len(tgt), 1, "squash-split", "a surviving node was split in two")
        wk.add((tgt.pop(), c))
    ctx.equal(set(rows), wk, "squash-rows", "row keys of the squashed DAG")
    ctx.equal({k for k, _ in rows}, set(ps), "squash-node-without-row", "graph nodes and row nodes")
    if len(ps) < len(surv):
        ctx.hit("merges")
    ctx.nontrivial("dagm", m.shape_sig(), sorted(surv))

SCENARIOS = [("trees", trees, 1400, 12000), ("exhaustive", exhaustive, 66, 600), ("dag_unique", dag_unique, 600, 6000), ("dag_merge", dag_merge, 400, 4000)]
