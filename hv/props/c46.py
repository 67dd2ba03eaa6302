"""Callbacks may use the library: nested calls do not disturb each other."""
import os
from .. import det, gen, obs
from ..core import Skip
from . import c44
RULE = ("filters, queries (base, object and compound), sums, drop_index_levels, group-by and traversals run on random graphframes with a callback that itself calls a non-modifying operation (query, filter, squash, copy, union, arithmetic, "
        "export, traversal) on the same graphframe; oracle = the same outer call with the plain callback, and the same inner call on its own; also several traversals advanced in turn; non-trivial = a nested call that ran >= 2 times")
REQUIRED = {"nested_calls": 2500, "outer_query": 60, "outer_compound": 40, "outer_filter": 40, "outer_sum": 40, "outer_drop": 8, "outer_groupby": 15, "interleaved": 100, "inner_compared": 1500, "inner_apply": 60, "inner_filter-string": 30, "inner_squash": 30, "same_query_object": 30}

def result(f):
    try:
        return det.text("\n".join(det.show(f())))
    except Exception as e:
        return "raised " + type(e).__name__

def nested(ctx, rng):
    from hatchet import query as Q
    names = rng.sample(gen.NAMES, rng.choice([2, 4, 6]))
    kind = rng.choice(["tree", "forest", "dag"])
    multi = rng.random() < 0.4
    m, gf, nodes = gen.gen_gf(rng, kind=kind, max_n=6, names=names, unique=kind == "dag" or rng.random() < 0.7, levels=None if multi else ())
    lv = gf.dataframe.index.nlevels > 1
    gf2 = gen.gen_gf(rng, max_n=5, names=names, levels=m.levels)[1]
    mode = {"multi_index_mode": "all"} if lv else {}
    inner = dict(c44.operations(ctx, rng, gf, gf2, names))
    inner.pop("hdf")
    t = sorted(x for x in gf.dataframe["time"].tolist() if x == x) or [0.0]
    name, cut = rng.choice(names), rng.choice(t)
    use = [None]                        # the inner call, once it is wanted
    want, label = [None], [None]
    depth, calls = [0], [0]
    def disturb():
        if use[0] is None or depth[0] or calls[0] >= 12:
            return
        depth[0] += 1
        calls[0] += 1
        try:
            got = result(use[0])
        finally:
            depth[0] -= 1
        ctx.hit("nested_calls"); ctx.hit("inner_" + label[0])
        if want[0] is not None:
            ctx.equal(got, want[0], "nested-inner", "%s inside a callback" % label[0])
            ctx.hit("inner_compared")
    def row_name(r):
        n = r["name"]
        return n if isinstance(n, str) else n.iloc[0]
    def p1(r):
        x = row_name(r) != name
        disturb()
        return x
    def p2(r):
        disturb()
        v = r["time"]
        return bool((v >= cut).all() if lv else v >= cut)
    def base():
        q = Q.Query().match(rng_q[0], p1)
        for w in rng_q[1:]:
            q.rel(w, p2)
        return q
    rng_q = [rng.choice([".", "*", "+"]) for _ in range(rng.randint(1, 3))]
    one = base()
    sq = rng.random() < 0.5
    def plainrow(r):
        x = r["name"] != name
        disturb()
        return x
    def agg(x):
        disturb()
        return x.sum(min_count=1)
    def summed():
        g = gf.deepcopy()
        g.subgraph_sum(["time"], ["out"], agg)
        return g
    def dropped():
        g = gf.deepcopy()
        g.drop_index_levels(agg)
        return g
    outers = {
        "query": lambda: sorted(n._hatchet_nid for n in gf.query_engine.apply(one, gf.graph, gf.dataframe)), "query-filter": lambda: gf.filter(one, squash=sq),
        "compound": lambda: sorted(n._hatchet_nid for n in gf.query_engine.apply((one | base()) & ~Q.Query().match(".", p2), gf.graph, gf.dataframe)),
        "filter": lambda: gf.filter(plainrow, num_procs=1, squash=sq), "sum": summed, "drop": dropped,
    }
    if not lv:
        outers["groupby"] = lambda: gf.groupby_aggregate("name", {"time": agg})
        outers.pop("drop")
    o = rng.choice(sorted(outers))
    plain = result(outers[o])
    label[0] = rng.choice(sorted(inner) + ["apply", "filter-object", "filter-string", "compound"])
    f = inner[label[0]]
    if o in ("query", "query-filter", "compound") and rng.random() < 0.25:      # the very query that is being applied
        label[0], f = "same query", lambda: sorted(n._hatchet_nid for n in gf.query_engine.apply(one, gf.graph, gf.dataframe))
        ctx.hit("same_query_object")
    use[0], want[0] = None, result(f)
    use[0] = f
    s = obs.snap(gf)
    got = result(outers[o])
    use[0] = None
    ctx.equal(got, plain, "nested-outer", "%s with a callback that calls %s" % (o, label[0]))
    obs.expect_unchanged(ctx, s, gf, "nested-mutates", "%s with a callback that calls %s" % (o, label[0]))
    ctx.equal(result(outers[o]), plain, "nested-outer", "%s after one with a callback that calls %s" % (o, label[0]))
    ctx.hit("outer_" + o.split("-")[0])
    if calls[0] >= 2:
        ctx.nontrivial(o, label[0], m.frames, m.children)
    ctx.sample({"outer": o, "inner": label[0], "nested_calls": calls[0], "nodes": len(nodes)})

def interleaved(ctx, rng):
    """Traversals of one graph that are advanced in turn, with other calls in between."""
    m, gf, nodes = gen.gen_gf(rng, kind=rng.choice(["tree", "forest", "dag"]), max_n=10)
    gf2 = gen.gen_gf(rng, max_n=5, levels=m.levels)[1]
    if rng.random() < 0.3:
        gf.graph.node_ordering = True
    g = gf.graph
    def start(k):
        n = rng2[k]
        return {"pre": lambda: g.traverse(), "post": lambda: g.traverse(order="post"), "node": lambda: nodes[n].traverse(), "node post": lambda: nodes[n].traverse(order="post"), "order": lambda: g.node_order_traverse(),
                "attrs": lambda: g.traverse(attrs=["name", "type"])}[kinds[k]]()
    k = rng.randint(2, 4)
    kinds = [rng.choice(["pre", "post", "node", "node post", "order", "attrs"]) for _ in range(k)]
    rng2 = [rng.randrange(len(nodes)) for _ in range(k)]
    key = lambda x: x._hatchet_nid if hasattr(x, "_hatchet_nid") else x
    want = [[key(x) for x in start(i)] for i in range(k)]
    its, got, live = [start(i) for i in range(k)], [[] for _ in range(k)], list(range(k))
    ops = c44.operations(ctx, rng, gf, gf2, [n.frame["name"] for n in nodes])
    ops.pop("hdf")
    while live:
        i = rng.choice(live)
        try:
            got[i].append(key(next(its[i])))
        except StopIteration:
            live.remove(i)
        if rng.random() < 0.1:
            result(ops[rng.choice(sorted(ops))])
    ctx.equal(got, want, "interleaved", "traversals %s advanced in turn" % kinds)
    ctx.hit("interleaved")
    ctx.nontrivial(kinds, m.children)

SCENARIOS = [("nested", nested, 900, 9000), ("interleaved", interleaved, 250, 2500)]
