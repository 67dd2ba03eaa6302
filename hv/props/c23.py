import copy
from .. import gen, obs
from ..core import same
RULE = ("random literals (trees, forests, shared nodes; ids on all, some or no nodes; ids in any order; a shared node's children listed once, again or only at a later occurrence; "
        "equal-frame siblings; name in the frame or beside it; absent metrics) and nested lists/tuples with shared Node objects; oracle = parallel walk of the description; "
        "non-trivial = >=3 nodes")
REQUIRED = {"roots_lacking": 100, "odd_names": 200, "literals": 500, "shared_nodes": 200, "repeated_children": 80, "late_children": 30, "no_ids": 100, "some_ids": 60, "all_ids": 100, "missing_metrics": 60, "forests": 80,
            "equal_siblings": 30, "list_graphs": 150, "list_shared": 40, "name_beside": 20}

def make_literal(ctx, rng, m, ids, rows, mode):
    """Nested dictionaries for the model; returns the literal and the number of occurrences listed again."""
    seen = {}
    stats = {"again": 0, "late": 0}
    nocc = [0] * len(m.frames)
    for cs in list(m.children) + [m.roots]:
        for c in cs:
            nocc[c] += 1
    # the occurrence that lists the children (occurrences are met in depth-first order)
    at = {i: (1 if mode != "late" else rng.randint(1, max(1, nocc[i]))) for i in range(len(m.frames))}
    def node(i):
        seen[i] = seen.get(i, 0) + 1
        fr = copy.deepcopy(m.frames[i])
        d = {"frame": fr, "metrics": {}}
        if m.name_beside[i]:
            d["name"] = fr.pop("name")
            fr.setdefault("type", "x")
        mets = dict(rows[i])
        if ids[i] is not None:
            mets["_hatchet_nid"] = ids[i]
            if rng.random() < 0.5:
                mets = dict(reversed(list(mets.items())))
        d["metrics"] = mets
        if m.children[i]:
            if seen[i] == at[i]:
                if seen[i] > 1:
                    stats["late"] += 1
                d["children"] = [node(c) for c in m.children[i]]
            elif seen[i] > 1 and mode == "again" and stats["again"] < 200:
                stats["again"] += 1
                d["children"] = [node(c) for c in m.children[i]]
        elif rng.random() < 0.2:
            d["children"] = []
        return d
    return [node(r) for r in m.roots], stats

def walk(ctx, gf, m):
    """Bijection between model nodes and read nodes by parallel walk in listed order."""
    to = {}
    def go(i, n):
        if i in to:
            ctx.expect(to[i] is n, "share", "two occurrences of one id are two nodes: %r" % n)
            return
        to[i] = n
        want = dict(m.frames[i])
        if m.name_beside[i]:
            want.pop("name"); want.setdefault("type", "x")
        want.setdefault("type", "None")
        ctx.equal(dict(n.frame.attrs), want, "frame", "attributes of node %d" % i)
        ctx.equal(len(n.children), len(m.children[i]), "edges", "number of children of node %d %r" % (i, n), children=[str(c) for c in n.children])
        for c, k in zip(m.children[i], n.children):
            go(c, k)
    ctx.equal(len(gf.graph.roots), len(m.roots), "roots", "number of roots")
    for r, n in zip(m.roots, gf.graph.roots):
        go(r, n)
    ctx.equal(len({id(n) for n in to.values()}), len(to), "split", "distinct described nodes became one")
    return to

def literal(ctx, rng):
    from hatchet import GraphFrame
    kind = rng.choice(["tree", "forest", "dag", "dag", "dagforest"])
    uniq = rng.random() < 0.75
    m = gen.gen_graph(rng, kind=kind, unique=uniq, rich=rng.random() < 0.5, max_n=rng.choice([2, 6, 14, 25]), max_paths=150)
    n = len(m.frames)
    m.name_beside = [rng.random() < 0.1 and any(k not in ("name",) for k in f) for f in m.frames] if rng.random() < 0.2 else [False] * n
    if any(m.name_beside):
        ctx.hit("name_beside")
    par = m.parents()
    shared = [i for i in range(n) if len(par[i]) + (i in m.roots) > 1]
    style = rng.choice(["none", "some", "all", "all"]) if not shared else rng.choice(["some", "all"])
    pool = list(range(n)) if rng.random() < 0.6 else rng.sample(range(1, 5 * n + 2), n)
    if rng.random() < 0.5:
        rng.shuffle(pool)
    mode = "once"
    if shared:
        mode = rng.choice(["once", "again", "late"])
    if style == "all":
        ids = pool
    elif style == "none":
        ids = [None] * n
    else:
        ids = [pool[i] if (i in shared or rng.random() < 0.4) else None for i in range(n)]
        if mode == "again":              # only described nodes with ids can be listed again
            for s in shared:
                for d in m.desc(s):
                    ids[d] = pool[d]
    exc = rng.choice([["time"], ["time", "bytes"], []])
    inc = rng.choice([["time (inc)"], ["time (inc)", "bytes (inc)"], []]) if exc else ["time (inc)"]
    if rng.random() < 0.3:
        # the marker may be anywhere in the name; other names only look similar
        inc = inc + [rng.choice(["max (inc) time", "(inc)", "calls(inc)"])]
        exc = exc + [rng.choice(["inc", "time (exc)", "(include)", "time (I)"])]
        ctx.hit("odd_names")
    extra = rng.choice([[], ["module"]])
    rows = []
    for i in range(n):
        r = {c: gen.val(rng, 0.05) for c in exc + inc}
        for e in extra:
            r[e] = rng.choice(["libA", "libB"])
        if rng.random() < 0.1 and len(r) > 1:
            r.pop(rng.choice(list(r)))
            ctx.hit("roots_lacking", i in m.roots)
            ctx.hit("missing_metrics")
        keys = list(r); rng.shuffle(keys)
        rows.append({k: r[k] for k in keys})
    exc, inc, extra = [[c for c in cs if any(c in r for r in rows)] for cs in (exc, inc, extra)]
    lit, st = make_literal(ctx, rng, m, ids, rows, mode)
    keep = copy.deepcopy(lit)
    gf = GraphFrame.from_literal(lit)
    ctx.hit("literals"); ctx.hit("shared_nodes", len(shared)); ctx.hit("repeated_children", st["again"]); ctx.hit("late_children", st["late"])
    ctx.hit({"none": "no_ids", "some": "some_ids", "all": "all_ids"}[style])
    ctx.hit("forests", len(m.roots) > 1)
    if any(len({m.key(c) for c in cs}) < len(cs) for cs in m.children):
        ctx.hit("equal_siblings")
    if n >= 3:
        ctx.nontrivial(m.shape_sig(), tuple(ids), mode)
    ctx.expect(same(lit, keep), "input", "the literal was changed by reading it")
    to = walk(ctx, gf, m)
    obs.check_graph(ctx, gf.graph, "literal", numbering=None in ids)
    if None not in ids:
        ctx.equal(sorted(x._hatchet_nid for x in to.values()), sorted(ids), "ids", "node ids when all are given")
    back = {id(x): i for i, x in to.items()}
    got = obs.rows_by(gf, lambda x: back.get(id(x), "foreign"))
    ctx.equal(set(got), {(i, ()) for i in range(n)}, "rows", "one row per described node")
    cols = set(exc + inc + extra) | {"name"}
    ctx.equal(set(gf.dataframe.columns), cols, "columns", "dataframe columns")
    for i in range(n):
        for c in exc + inc + extra:
            ctx.equal(got[(i, ())][c], rows[i].get(c, gen.NAN), "value", "%s of node %d" % (c, i))
        ctx.equal(got[(i, ())]["name"], m.frames[i]["name"], "name", "name of node %d" % i)
    ctx.equal(sorted(gf.exc_metrics), sorted(exc + extra), "exc-list", "exclusive metrics")
    ctx.equal(sorted(gf.inc_metrics), sorted(inc), "inc-list", "inclusive metrics")
    ctx.equal(list(gf.dataframe.index.names), ["node"], "index", "index")
    # reading the same description again gives an equal, separate graph
    if uniq and not any(m.name_beside) and rng.random() < 0.3:
        g2 = GraphFrame.from_literal(lit)
        ctx.expect(g2.graph == gf.graph and not ({id(x) for x in obs.nodes_of(g2.graph)} & set(back)), "again", "second reading")
    ctx.sample({"nodes": n, "shared": len(shared), "ids": style, "mode": mode})

def lists(ctx, rng):
    from hatchet import GraphFrame
    from hatchet.node import Node
    from hatchet.graph import Graph
    from hatchet.frame import Frame
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "forest", "dag", "dagforest"]), unique=rng.random() < 0.8, max_n=rng.choice([2, 6, 12, 20]), max_paths=150)
    n = len(m.frames)
    m.frames = [{"name": f["name"]} for f in m.frames]
    m.name_beside = [False] * n
    par = m.parents()
    objs = {i: Node(Frame(name=m.frames[i]["name"])) for i in range(n) if len(par[i]) > 1 or rng.random() < 0.15}
    seen = set()
    def ent(i, root=False):
        head = objs.get(i, m.frames[i]["name"])
        if i in seen:
            return objs[i] if rng.random() < 0.5 else [objs[i]]
        seen.add(i)
        kids = [ent(c) for c in m.children[i]]
        if not kids and not root and rng.random() < 0.6:
            return head
        r = [head] + kids
        return r if rng.random() < 0.7 else tuple(r)
    spec = [ent(r, True) for r in m.roots]
    if rng.random() < 0.5:
        gf = GraphFrame.from_lists(*spec)
        full = True
    else:
        class G: pass
        gf = G(); gf.graph = Graph.from_lists(*spec)
        full = False
    ctx.hit("list_graphs"); ctx.hit("list_shared", sum(len(p) > 1 for p in par))
    to = walk(ctx, gf, m)
    for i, o in objs.items():
        ctx.expect(to[i] is o, "list-node", "a given Node object was replaced")
    obs.check_graph(ctx, gf.graph, "lists")
    if n >= 3:
        ctx.nontrivial("lists", m.shape_sig())
    if full:
        back = {id(x): i for i, x in to.items()}
        got = obs.rows_by(gf, lambda x: back.get(id(x), "foreign"))
        ctx.equal(set(got), {(i, ()) for i in range(n)}, "rows", "one row per listed node")
        for i in range(n):
            r = got[(i, ())]
            ctx.equal((r["name"], r["time"], r["time (inc)"]), (m.frames[i]["name"], 1.0, float(len(m.desc(i)))), "list-values", "row of node %d" % i)
        ctx.equal((gf.exc_metrics, gf.inc_metrics), (["time"], ["time (inc)"]), "list-metrics", "metric lists")
    ctx.raises(ValueError, lambda: Graph.from_lists("a"), "list-error", "a root that is no list")

SCENARIOS = [("literal", literal, 4500, 20000), ("lists", lists, 1750, 8000)]
