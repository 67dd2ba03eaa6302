from .. import hist, obs
from ..core import same
RULE = ("random histories of up to two dozen public calls over a pool of live graphframes (see C16), with an invariant monitor on every frame of the pool after every call: mirrored links, parentless roots, node ids 0..n-1 in "
        "traversal order, depths, rows of own nodes only, unique index entries, metric lists naming existing columns, lists, default metric and metadata carried over from the source; a call that crashes is a violation; "
        "non-trivial = history of >=10 calls")
REQUIRED = {"histories": 60, "steps": 900, "wellformed_graphframes": 3000, "carried": 500, "arith": 60, "inplace": 60, "unifies": 40, "user_edits": 60, "generated": 15, "groupbys": 4, "drops": 8, "sums": 60,
            "op_filter": 120, "op_squash": 70, "op_copy": 50, "op_rows": 15, "every_node_rows": 150}

def s(x):
    return sorted(map(str, x))

class WellFormed:
    def __init__(self, ctx):
        self.ctx = ctx
    def before(self, pool):
        return {id(e): (s(e.gf.exc_metrics), s(e.gf.inc_metrics), e.gf.default_metric, dict(e.gf.metadata), e.lists) for e in pool}
    def after(self, step, pool, kept, changed, new):
        ctx = self.ctx
        for gf, what, dag in [(e.gf, e.label, e.dag) for e in pool] + [(g, "result", src[0].dag) for src, _, g in new]:
            cyc = any(k == "grouped" and g is gf for _, k, g in new)
            w = "%s of %s" % (what, step)
            if cyc:
                obs.check_graph(ctx, gf.graph, w, depths=False) if not cyclic(gf.graph) and all(not r.parents for r in gf.graph.roots) else None
                continue
            obs.check_gf(ctx, gf, w, rooted=not dag)
            order = [n._hatchet_nid for n in (gf.graph.node_order_traverse() if gf.graph.node_ordering else gf.graph.traverse())]
            ctx.equal(order, list(range(len(order))), "wf:traversal-order", "%s: node ids in traversal order" % w)
        for src, kind, gf in new:
            exc, inc, dm, md, _ = kept[id(src[0])]
            if kind == "edited":
                continue
            if kind == "read":
                ctx.equal((s(gf.exc_metrics), s(gf.inc_metrics)), (exc, inc), "carried:lists", "%s: metric lists" % step)
                continue
            ctx.hit("carried")
            ctx.equal((gf.default_metric, gf.metadata), (dm, md), "carried:metadata", "%s: default metric and metadata" % step)
            if kind == "squashed":
                ctx.equal(s(gf.exc_metrics), exc, "carried:lists", "%s: exclusive metrics" % step)
                ctx.expect(set(inc) <= set(s(gf.inc_metrics)) <= set(inc) | {"%s (inc)" % x for x in exc} | {x[:-5].strip() for x in exc if x.endswith("(exc)")}, "carried:lists", "%s: inclusive metrics %s, before %s" % (step, gf.inc_metrics, inc))
                have = {id(n) for n in gf.dataframe.index.get_level_values("node")}
                ctx.hit("every_node_rows")
                ctx.expect(all(id(n) in have for n in obs.nodes_of(gf.graph)), "wf:node-without-row", "%s: a node has no row" % step)
            elif kind == "sums":
                ctx.expect(set(exc) <= set(s(gf.exc_metrics)) and set(inc) <= set(s(gf.inc_metrics)), "carried:lists", "%s: metric lists lost an entry" % step)
            else:
                ctx.equal((s(gf.exc_metrics), s(gf.inc_metrics)), (exc, inc), "carried:lists", "%s: metric lists" % step)

def cyclic(g):
    state = {}
    def go(n):
        state[id(n)] = 1
        for c in n.children:
            if state.get(id(c)) == 1 or id(c) not in state and go(c):
                return True
        state[id(n)] = 2
        return False
    return any(id(n) not in state and go(n) for n in obs.nodes_of(g))

def case(ctx, rng):
    pool, log = hist.run(ctx, rng, WellFormed(ctx), rng.choice([8, 14, 22]))
    ctx.hit("histories")
    if len(log) >= 10:
        ctx.nontrivial(tuple(log))

def real(ctx, rng):
    """The same over the profiles shipped with the repository."""
    pool, log = hist.run(ctx, rng, WellFormed(ctx), rng.choice([4, 8]), pool_size=4, real=True)
    ctx.hit("real_histories")
    if len(log) >= 3:
        ctx.nontrivial(tuple(log))

SCENARIOS = [("history", case, 1000, 12000), ("real", real, 120, 1500)]
