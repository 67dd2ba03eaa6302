from .. import gen, obs
from ..core import Violation
RULE = "random pairs of graphs over a small shared name pool (trees, forests, DAGs, repeated siblings), plus identical, empty-overlap, subset and derived pairs; oracle = sets of root paths; non-trivial = pair with both common and differing paths"
REQUIRED = {"unions": 800, "overlapping": 200, "disjoint": 20, "dag_unions": 100}

def pair(rng, kinds):
    names = rng.sample(gen.NAMES, rng.choice([2, 3, 5]))
    unique = rng.random() < 0.8
    a = gen.gen_graph(rng, names=names, kind=rng.choice(kinds), max_n=rng.choice([3, 8, 15]), unique=unique, max_paths=120)
    b = gen.gen_graph(rng, names=names, kind=rng.choice(kinds), max_n=rng.choice([3, 8, 15]), unique=unique, max_paths=120)
    if rng.random() < 0.5:    # force a common root
        b.frames[b.roots[0]] = dict(a.frames[a.roots[0]])
        ks = [b.key(r) for r in b.roots]
        if len(set(ks)) < len(ks):
            unique = False
    r = rng.random()
    if r < 0.15:
        b = variant(a, rng)
    return a, b, unique

def variant(a, rng):
    """Edited twin: some subtrees dropped, some added."""
    c = gen.Model()
    c.frames = [dict(f) for f in a.frames]; c.children = [list(x) for x in a.children]; c.roots = list(a.roots)
    for p in range(len(c.children)):
        if c.children[p] and rng.random() < 0.3:
            c.children[p].pop()
        if rng.random() < 0.2:
            c.frames.append({"name": "added%d" % p, "type": "function"}); c.children.append([]); c.children[p].append(len(c.frames) - 1)
    live = set()
    for r in c.roots:
        live |= c.desc(r)
    live = sorted(live); mp = {x: i for i, x in enumerate(live)}
    d = gen.Model()
    d.frames = [c.frames[x] for x in live]; d.children = [[mp[y] for y in c.children[x]] for x in live]; d.roots = [mp[r] for r in c.roots]
    for x in d.children:
        rng.shuffle(x)
    rng.shuffle(d.roots)
    return d

def check_union(ctx, ga, gb, na, nb, exact, what):
    ba, bb = obs.snap_graph(ga), obs.snap_graph(gb)
    pa, pb = obs.all_paths(ga), obs.all_paths(gb)
    mp = {}
    u = ga.union(gb, mp)
    ctx.hit("unions")
    for b, g, nm in ((ba, ga, "left"), (bb, gb, "right")):
        d = obs.diff(b, obs.snap_graph(g))
        ctx.expect(d is None, "union-mutates", "%s: %s operand changed: %s" % (what, nm, d))
    old = {id(n) for n in na} | {id(n) for n in nb}
    un = obs.nodes_of(u)
    for n in un:
        ctx.expect(id(n) not in old, "union-reuses-node", "%s: result contains an input's node %r" % (what, n))
    oldf = {id(n.frame.attrs) for n in list(na) + list(nb)}
    for n in un:
        ctx.expect(id(n.frame.attrs) not in oldf, "union-reuses-frame", "%s: result shares an input's frame" % what)
    obs.check_graph(ctx, u, "union")
    pu = obs.all_paths(u)
    miss = (pa | pb) - pu
    ctx.expect(not miss, "union-lost-path", "%s: call path missing from the union: %s" % (what, sorted(miss)[:2]))
    if exact:
        extra = pu - (pa | pb)
        ctx.expect(not extra, "union-extra-path", "%s: union has a call path of neither graph: %s" % (what, sorted(extra)[:2]))
        ctx.equal(len(un), len(pa | pb), "union-unmerged", "%s: one node per call path" % what)
    # the map
    uids = {id(n) for n in un}
    for n in list(na) + list(nb):
        ctx.expect(id(n) in mp, "union-map", "%s: node %r not in the old-to-new map" % (what, n))
        w = mp[id(n)]
        ctx.expect(id(w) in uids, "union-map", "%s: %r mapped to a node outside the union" % (what, n))
        ctx.equal(w.frame.attrs, n.frame.attrs, "union-map", "%s: frame of mapped node" % what)
        for c in n.children:
            ctx.expect(any(x is mp.get(id(c)) for x in w.children), "union-edge", "%s: edge %r -> %r not in the union" % (what, n, c))
    img = {id(v) for v in mp.values()}
    for n in un:
        ctx.expect(id(n) in img, "union-invented-node", "%s: union node %r comes from no input" % (what, n))
    for r in list(ga.roots) + list(gb.roots):
        ctx.expect(any(mp[id(r)] is x for x in u.roots), "union-root", "%s: root %r is not a root of the union" % (what, r))
    if exact:
        ups = obs.paths_by_id(u)
        for g, ns in ((ga, na), (gb, nb)):
            ps = obs.paths_by_id(g)
            for n in ns:
                ctx.equal(ups[id(mp[id(n)])], ps[id(n)], "union-map", "%s: call path of the mapped node" % what)
    return u, pa, pb

def trees(ctx, rng):
    a, b, unique = pair(rng, ["tree", "forest"])
    ga, na = gen.build_graph(a); gb, nb = gen.build_graph(b)
    u, pa, pb = check_union(ctx, ga, gb, na, nb, unique, "union")
    if pa & pb and pa ^ pb:
        ctx.hit("overlapping"); ctx.nontrivial(a.shape_sig(), b.shape_sig())
    if not pa & pb:
        ctx.hit("disjoint")
    un = obs.nodes_of(u)
    if unique:
        v, _, _ = check_union(ctx, gb, ga, nb, na, True, "commuted union")
        ctx.expect(u == v, "union-commute", "a|b != b|a")
        ctx.equal(obs.canon(u), obs.canon(v), "union-commute", "canonical forms")
        w, _, _ = check_union(ctx, ga, ga, na, na, True, "self union")
        ctx.expect(w == ga, "union-idempotent", "a|a != a")
        x, _, _ = check_union(ctx, u, ga, un, na, True, "absorbing union")
        ctx.expect(x == u, "union-absorb", "(a|b)|a != a|b")
        cpy = ga.copy()
        y, _, _ = check_union(ctx, ga, cpy, na, obs.nodes_of(cpy), True, "union with a copy")
        ctx.expect(y == ga, "union-idempotent", "a|copy(a) != a")
    ctx.sample({"a": a.shape_sig(), "b": b.shape_sig()})

def dag_pair(rng):
    a = gen.rank_names(rng, gen.gen_graph(rng, kind=rng.choice(["dag", "dagforest"]), max_n=rng.choice([4, 7, 12]), max_paths=150))
    if rng.random() < 0.4:
        b = variant(a, rng)
    else:
        b = gen.rank_names(rng, gen.gen_graph(rng, kind=rng.choice(["dag", "dagforest", "tree"]), max_n=rng.choice([4, 7, 12]), max_paths=150))
    return a, b

def dags(ctx, rng):
    """Shared nodes on either side; names increase along edges, so merging by context cannot form a cycle."""
    a, b = dag_pair(rng)
    ga, na = gen.build_graph(a); gb, nb = gen.build_graph(b)
    check_union(ctx, ga, gb, na, nb, False, "dag union")
    check_union(ctx, gb, ga, nb, na, False, "dag union")
    ctx.hit("dag_unions")
    cpy = ga.copy()
    y, _, _ = check_union(ctx, ga, cpy, na, obs.nodes_of(cpy), False, "dag union with a copy")
    ctx.equal(obs.canon(y), obs.canon(ga), "union-idempotent", "a|copy(a) != a for a DAG")
    z, _, _ = check_union(ctx, ga, ga, na, na, False, "dag self union")
    ctx.equal(obs.canon(z), obs.canon(ga), "union-idempotent", "a|a != a for a DAG")
    ctx.expect(z == ga and y == ga, "union-idempotent", "a|a != a for a DAG")
    ctx.nontrivial("dag", a.shape_sig(), b.shape_sig())

SCENARIOS = [("trees", trees, 6000, 30000), ("dags", dags, 4500, 20000)]
