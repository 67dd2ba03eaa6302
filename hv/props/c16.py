import sys
from .. import gen, hist, obs
from ..core import same
RULE = ("random histories of up to a dozen public calls over a pool of live graphframes (trees, forests, DAGs, single and multi-index; originals, shallow and deep copies, filtered, squashed, unified, reloaded); "
        "every frame of the pool is snapshot (graph links, numbering, frames, all rows, dtypes, lists, metadata) before each call and compared after it unless the call may modify it; value-returning calls are repeated "
        "and compared; calls are also made to fail (predicates and aggregations that raise, empty filters, recursion limit); non-trivial = history of >=8 calls")
REQUIRED = {"histories": 60, "steps": 700, "snapshots": 2500, "repeats": 300, "failed_calls": 25, "empty_filters": 15, "arith": 50, "inplace": 50, "unifies": 30, "user_edits": 40, "generated": 12, "groupbys": 3,
            "export_tree": 15, "export_dot": 3, "export_flame": 3, "export_literal": 8, "export_dict": 8, "export_json": 15, "export_hdf": 8, "query_filters": 20, "defaults": 30}

class Untouched:
    def __init__(self, ctx):
        self.ctx = ctx
    def before(self, pool):
        return [(e, obs.snap(e.gf), dict(e.gf.metadata)) for e in pool]
    def after(self, step, pool, kept, changed, new):
        ctx = self.ctx
        ch = {id(e) for e in changed}
        for e, s, md in kept:
            if id(e) not in ch:
                obs.expect_unchanged(ctx, s, e.gf, "mutates:" + step.op.split()[0], "%s, frame %s" % (step, e.label))
        if step.again:
            ctx.hit("repeats")
            ctx.expect(same(step.again(), step.answer), "repeat:" + step.op.split()[0], "%s: repeating the call gives another answer" % step)

def case(ctx, rng):
    pool, log = hist.run(ctx, rng, Untouched(ctx), rng.choice([6, 10, 14]))
    ctx.hit("histories")
    if len(log) >= 8:
        ctx.nontrivial(tuple(log))

def real(ctx, rng):
    """The same over the profiles shipped with the repository."""
    pool, log = hist.run(ctx, rng, Untouched(ctx), rng.choice([4, 7]), pool_size=4, real=True)
    ctx.hit("real_histories")
    if len(log) >= 3:
        ctx.nontrivial(tuple(log))

def recursion(ctx, rng):
    """A deep graph: calls that run out of recursion leave the frame as it was."""
    from hatchet.graphframe import GraphFrame
    n = rng.randint(250, 320)
    m = gen.Model()
    m.frames = [{"name": "f%d" % (i % 50), "type": "function"} for i in range(n)]
    m.children = [[i + 1] if i + 1 < n else [] for i in range(n)]
    m.roots = [0]
    gen.gen_rows(rng, m, levels=(), exc=["time"], inc=["time (inc)"], nanp=0)
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(5000)
    try:
        gf, _ = gen.build(m)
        s = obs.snap(gf)
        f = sys._getframe(); depth = 0
        while f:
            depth += 1; f = f.f_back
        op = rng.choice(["squash", "squash", "deepcopy", "filter", "tree", "to_dict"])
        # NB: filter sets its own limit
        sys.setrecursionlimit(depth + rng.randint(60, 240))
        try:
            {"squash": lambda: gf.squash(), "deepcopy": gf.deepcopy, "filter": lambda: gf.filter(lambda r: True, num_procs=1, rec_limit=depth + 200), "tree": gf.tree, "to_dict": gf.to_dict}[op]()
        except RecursionError:
            ctx.hit("deep_failures")
        finally:
            sys.setrecursionlimit(5000)
        obs.expect_unchanged(ctx, s, gf, "mutates:failed-" + op, "%s that ran out of recursion" % op)
    finally:
        sys.setrecursionlimit(old)

def defaults(ctx, rng):
    """Frames made independently do not share lists or metadata."""
    from hatchet.graphframe import GraphFrame
    fs = []
    for _ in range(2):
        m, gf, nodes = gen.gen_gf(rng, kind="tree", max_n=4)
        how = rng.choice(["constructor", "literal", "json"])
        if how == "constructor":
            gf = GraphFrame(gf.graph, gf.dataframe)
        elif how == "json":
            gf = GraphFrame.from_json(gf.to_json())
        else:
            gf = GraphFrame.from_literal([{"frame": {"name": "a"}, "metrics": {"time": 1.0}, "children": [{"frame": {"name": "b"}, "metrics": {"time": 2.0}}]}])
        fs.append(gf)
    s = obs.snap(fs[1])
    k = rng.randrange(3)
    if k == 0:
        fs[0].metadata["launch"] = 3
    elif k == 1:
        fs[0].exc_metrics.append("x")
    else:
        fs[0].inc_metrics.append("y")
    ctx.hit("defaults")
    obs.expect_unchanged(ctx, s, fs[1], "mutates:independent", "editing another, independently made frame")

SCENARIOS = [("real", real, 100, 1500), ("history", case, 1000, 12000), ("recursion", recursion, 120, 600), ("defaults", defaults, 160, 500)]
