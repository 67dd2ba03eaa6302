"""Random histories of public operations over a pool of live graphframes (used by C16 and C17).

Each step runs one operation; a monitor object is told about it:
  before(pool)                      -> whatever it wants to keep
  after(step, kept, changed, new)   -> judge; `changed`: entries the operation may modify, `new`: resulting frames
"""
import os, sys
import numpy as np
from . import gen, obs
from .core import Violation, Skip

class Entry:
    def __init__(self, gf, label, dag=False, real=False):
        self.gf, self.label, self.dag, self.real = gf, label, dag, real
        self.shares = [self]          # frames whose column data may be shared (shallow copies)
    @property
    def levels(self):
        return tuple(x for x in self.gf.dataframe.index.names if x != "node")
    @property
    def full(self):
        have = {id(n) for n in self.gf.dataframe.index.get_level_values("node")}
        return all(id(n) in have for n in obs.nodes_of(self.gf.graph))
    @property
    def lists(self):
        return (sorted(map(str, self.gf.exc_metrics)), sorted(map(str, self.gf.inc_metrics)))

class Step:
    """One performed operation."""
    def __init__(self, op, operands):
        self.op, self.operands = op, operands
        self.again = None             # repeats the call
        self.answer = None            # what a repeated call has to give
        self.error = None
    def __str__(self):
        return "%s(%s)" % (self.op, ", ".join(e.label for e in self.operands))

def view(gf):
    """Order-free content of a graphframe."""
    ps = obs.paths_by_id(gf.graph)
    amb = len(set(ps.values())) < len(ps)       # DAG unions may hold two nodes of the same call paths
    return {"graph": obs.canon(gf.graph), "rows": sorted(repr(sorted(r.items(), key=str)) for r in obs.rows_by(gf, id).values()) if amb else obs.rows_by_path(gf), "index": list(gf.dataframe.index.names), "columns": sorted(map(str, gf.dataframe.columns)),
            "exc": sorted(map(str, gf.exc_metrics)), "inc": sorted(map(str, gf.inc_metrics)), "default": gf.default_metric, "metadata": dict(gf.metadata)}

def start(rng, n, max_n=9):
    levels = rng.choice([(), (), (), ("rank",), ("rank", "thread")])
    exc = rng.choice([["time"], ["time", "bytes"]])
    inc = rng.choice([["time (inc)"], []])
    dags = rng.random() < 0.3
    names = rng.sample(gen.NAMES, 5)
    pool, models = [], []
    for k in range(n):
        if models and rng.random() < 0.5:         # a similar profile
            from .props.c05 import variant
            m = variant(rng.choice(models), rng)
            if any(len({m.key(c) for c in cs}) < len(cs) for cs in m.children + [m.roots]):
                m = gen.gen_graph(rng, kind="tree", max_n=6, names=names, unique=True)
        else:
            m = gen.gen_graph(rng, kind=rng.choice(["dag", "dagforest"] if dags else ["tree", "tree", "forest"]), max_n=rng.choice([3, 6, max_n]), names=names, unique=True, max_paths=60)
        if dags:
            gen.rank_names(rng, m)
        models.append(m)
        gen.gen_rows(rng, m, levels=levels, exc=exc, inc=inc, nanp=rng.choice([0, 0, 0.15]), ragged=rng.random() < 0.15, extra=rng.random() < 0.7, nonneg=rng.random() < 0.5,
                     ranks=2, threads=2)
        pool.append(Entry(gen.build(m)[0], "g%d" % k, dags))
    return pool

def start_real(ctx, rng):
    """A pool of profiles shipped with the repository: one sample, read twice or with a part of it."""
    from . import samples
    name = rng.choice(REAL)
    try:
        gf, two = samples.load(name), samples.load(name)
    except FileNotFoundError:
        raise Skip()
    ctx.hit("sample_" + name)
    if len(gf.dataframe) > 200:             # a part of a large profile
        keep = sorted(obs.nodes_of(gf.graph), key=lambda n: n._hatchet_nid)[:rng.choice([20, 40])]
        ids = {n._hatchet_nid for n in keep}
        gf, two = [g.filter(lambda r: r["node"]._hatchet_nid in ids, num_procs=1) for g in (gf, two)]
    dag = not gf.graph.is_tree()
    return [Entry(gf, name, dag, True), Entry(two, name + "'", dag, True)]

REAL = ["hpctoolkit-cpi", "caliper-cpi-json", "caliper-lulesh-json", "caliper-ordered-json", "caliper-dup-json", "caliper-lulesh-cali", "caliper-ordered-cali", "caliper-ordered-mpi", "caliper-cuda", "caliper-cuda-summary",
        "caliper-example", "caliper-dup", "caliper-dup-old", "timemory", "tau", "pyinstrument", "spot-0"]

class Boom(Exception):
    pass

def metric(e):
    """A numeric metric of the frame."""
    c = [m for m in list(e.gf.exc_metrics) + list(e.gf.inc_metrics) if m in e.gf.dataframe.columns and e.gf.dataframe[m].dtype.kind in "if"]
    return "time" if "time" in c else c[0] if c else "time"

def predicate(rng, e):
    k = rng.randrange(4)
    if k == 0:
        t = rng.choice([-50, 0, 0, 20, 60])
        col = metric(e)
        if e.real:
            t = rng.choice(sorted(x for x in e.gf.dataframe[col].tolist() if x == x)[:40] or [0])
        return "%s>%g" % (col, t), lambda r: bool(r[col] > t)
    if k == 1:
        c = rng.choice("aemMoqL0")
        return "name~%s" % c, lambda r: c in r["name"] or r["name"] < "M"
    if k == 2:
        return "all", lambda r: True
    s = rng.randint(0, 4)
    return "hash%d" % s, lambda r: (len(r["name"]) + s) % 3 != 0

def query(rng, e):
    mode = "off" if not e.levels else rng.choice(["any", "all"])
    c = metric(e)
    if rng.random() < 0.5:
        return rng.choice([["*"], ["*", {c: ">= 0"}], [{"name": ".*"}, "*"], [("+", {"name": "[^z]*"})], [".", {c: "> 5"}]]), mode
    return rng.choice(["MATCH (\"*\", p) WHERE p.\"%s\" >= 0" % c, "MATCH (\".\", p)->(\"*\") WHERE p.\"name\" =~ \".*\"", "MATCH (\"+\", p) WHERE NOT p.\"%s\" IS NAN" % c]), mode

def selection(e, rng):
    """rank/thread keywords for which every node has a row, or None"""
    if not e.levels:
        return {}
    ix = e.gf.dataframe.index
    have = {(id(t[ix.names.index("node")]),) + tuple(x for j, x in enumerate(t) if ix.names[j] != "node") for t in ix.tolist()}
    ns = obs.nodes_of(e.gf.graph)
    combos = sorted({h[1:] for h in have})
    rng.shuffle(combos)
    for c in combos:
        if all((id(n),) + c in have for n in ns):
            return dict(zip(e.levels, c))
    return None

def finite(e, col, nonneg=False):
    v = e.gf.dataframe[col]
    return bool(np.isfinite(v.astype(float)).all() and (not nonneg or (v >= 0).all()))

# ---------------------------------------------------------------- operations
# each: fn(ctx, rng, pool) -> None (not applicable) or (Step, changed entries, [(source entries, kind, result)])
def need(rng, pool, f=lambda e: True):
    c = [e for e in pool if f(e)]
    return rng.choice(c) if c else None

def pure(step, thunk, conv):
    """Run a value-returning call; conv makes a comparable answer of its result."""
    r = thunk()
    step.again = lambda: conv(thunk())
    step.answer = conv(r)
    return r

def op_filter(ctx, rng, pool):
    from hatchet.graphframe import EmptyFilter
    e = need(rng, pool)
    sq = rng.random() < 0.6
    upd = rng.random() < 0.6
    if rng.random() < 0.3 and e.full:
        q, mode = query(rng, e)
        name, thunk = "filter %r" % (q,), lambda: e.gf.filter(q, squash=sq, update_inc_cols=upd, multi_index_mode=mode)
        ctx.hit("query_filters")
    else:
        n, p = predicate(rng, e)
        name, thunk = "filter %s" % n, lambda: e.gf.filter(p, squash=sq, update_inc_cols=upd, num_procs=1)
    s = Step("%s squash=%s update=%s" % (name, sq, upd), [e])
    try:
        r = pure(s, thunk, view)
    except EmptyFilter as x:
        s.error = x
        ctx.hit("empty_filters")
        return s, [], []
    return s, [], [((e,), "squashed" if sq else "filtered", r)]

def op_filter_fails(ctx, rng, pool):
    e = need(rng, pool)
    left = [rng.randint(0, max(0, len(e.gf.dataframe) - 1))]
    def p(row):
        left[0] -= 1
        if left[0] < 0:
            raise Boom()
        return True
    s = Step("filter with a failing predicate", [e])
    try:
        e.gf.filter(p, num_procs=1)
    except Boom as x:
        s.error = x
        ctx.hit("failed_calls")
        return s, [], []
    raise Violation("history:lost-error", "an error in the predicate was lost")

def op_squash(ctx, rng, pool):
    e = need(rng, pool)
    upd = rng.random() < 0.6
    s = Step("squash update=%s" % upd, [e])
    return s, [], [((e,), "squashed", pure(s, lambda: e.gf.squash(update_inc_cols=upd), view))]

def op_copy(ctx, rng, pool):
    e = need(rng, pool)
    deep = rng.random() < 0.5
    s = Step("deepcopy" if deep else "copy", [e])
    return s, [], [((e,), s.op, pure(s, e.gf.deepcopy if deep else e.gf.copy, view))]

def op_graph(ctx, rng, pool):
    a, b = need(rng, pool), need(rng, pool)
    k = rng.randrange(4)
    if k == 0:
        s = Step("graph.copy", [a])
        g = pure(s, a.gf.graph.copy, obs.canon)
    elif k == 1:
        s = Step("graph.union", [a, b])
        g = pure(s, lambda: a.gf.graph.union(b.gf.graph), obs.canon)
        if a.gf.graph is not b.gf.graph:
            ctx.expect(g is not a.gf.graph and g is not b.gf.graph, "history:union-new", "union returned an operand")
    elif k == 2:
        s = Step("graph == and !=", [a, b])
        pure(s, lambda: (a.gf.graph == b.gf.graph, a.gf.graph != b.gf.graph), lambda x: x)
        return s, [], []
    else:
        s = Step("traverse", [a])
        def go():
            g = a.gf.graph
            return ([id(n) for n in g.traverse()], [id(n) for n in g.traverse(order="post")], [sorted(map(id, v)) for r in g.roots for v in [list(r.traverse())]], len(g), g.is_tree(), str(list(g.roots)))
        pure(s, go, lambda x: x)
        return s, [], []
    obs.check_graph(ctx, g, str(s), rooted=not (a.dag or b.dag))
    return s, [], []

def mates(e, pool):
    return [x for x in pool if x.levels == e.levels and list(x.gf.dataframe.index.names) == list(e.gf.dataframe.index.names) and sum(x.lists, []) and x.lists == e.lists]

def op_arith(ctx, rng, pool):
    a = need(rng, pool)
    b = rng.choice(mates(a, pool))
    op = rng.choice(["add", "sub", "mul", "div"])
    form = rng.choice(["method", "operator"])
    import operator
    s = Step("%s %s" % (op, form), [a, b])
    f = (lambda: getattr(a.gf, op)(b.gf)) if form == "method" else (lambda: {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}[op](a.gf, b.gf))
    ctx.hit("arith")
    return s, [], [((a, b), "arith", pure(s, f, view))]

def op_inplace(ctx, rng, pool):
    import operator
    a = need(rng, pool)
    b = rng.choice(mates(a, pool))
    op = rng.choice(["iadd", "isub", "imul", "itruediv"])
    s = Step(op, [a, b])
    r = getattr(operator, op)(a.gf, b.gf)
    ctx.hit("inplace")
    ctx.expect(r is a.gf, "history:inplace", "%s: in-place form returned another object" % s)
    return s, [a], [((a, b), "same", a.gf)]

def op_unify(ctx, rng, pool):
    a = need(rng, pool)
    b = rng.choice(mates(a, pool))
    s = Step("unify", [a, b])
    a.gf.unify(b.gf)
    ctx.expect(a.gf.graph is b.gf.graph, "history:unify", "%s: frames are not on one graph" % s)
    ctx.hit("unifies")
    return s, [a, b], [((a,), "same", a.gf), ((b,), "same", b.gf)]

def op_drop(ctx, rng, pool):
    e = need(rng, pool, lambda e: e.levels) or None
    if e is None:
        return None
    s = Step("drop_index_levels", [e])
    if rng.random() < 0.25:
        def bad(x):
            raise Boom()
        try:
            e.gf.drop_index_levels(bad)
        except Boom as x:
            s.op, s.error = "failing drop_index_levels", x
            ctx.hit("failed_calls")
            return s, [], []
        raise Violation("history:lost-error", "an error in the aggregation was lost")
    e.gf.drop_index_levels(rng.choice([np.mean, np.max, np.sum]))
    ctx.hit("drops")
    return s, [e], [((e,), "same", e.gf)]

def op_sums(ctx, rng, pool):
    e = need(rng, pool, lambda e: e.full)
    if e is None:
        return None
    k = rng.randrange(3)
    if k == 0:
        s = Step("update_inclusive_columns", [e])
        e.gf.update_inclusive_columns()
    elif k == 1:
        s = Step("generate_exclusive_columns", [e])
        if not e.gf.inc_metrics:
            return None
        e.gf.generate_exclusive_columns()
        ctx.hit("generated")
    else:
        # in place only where no shallow copy shares the data
        out = rng.choice([["t sum"], None]) if sum(1 for x in pool if x.shares is e.shares) == 1 else ["t sum"]
        s = Step("subgraph_sum %s" % out, [e])
        e.gf.subgraph_sum([metric(e)], out)
    ctx.hit("sums")
    return s, [e], [((e,), "sums", e.gf)]

def op_groupby(ctx, rng, pool):
    col = "module"
    e = need(rng, pool, lambda e: not e.levels and e.full and col in e.gf.dataframe.columns and not e.gf.dataframe[col].isna().any())
    if e is None:
        return None
    aggs = {m: "sum" for m in list(e.gf.exc_metrics) + list(e.gf.inc_metrics)}
    s = Step("groupby_aggregate %s" % col, [e])
    if rng.random() < 0.2:
        def bad(x):
            raise Boom()
        try:
            e.gf.groupby_aggregate([col], {m: bad for m in aggs})
        except Boom as x:
            s.op, s.error = "failing groupby_aggregate", x
            ctx.hit("failed_calls")
            return s, [], []
        raise Violation("history:lost-error", "an error in the aggregation was lost")
    r = e.gf.groupby_aggregate([col], aggs)
    ctx.hit("groupbys")
    return s, [], [((e,), "grouped", r)]

def op_export(ctx, rng, pool):
    from hatchet import GraphFrame
    e = need(rng, pool, lambda e: e.full)
    if e is None:
        return None
    sel = selection(e, rng)
    g = e.gf
    m = rng.choice(list(g.exc_metrics) + list(g.inc_metrics))
    k = rng.choice(["tree", "tree", "dot", "flame", "literal", "dict", "json", "hdf", "show"])
    if sel is None and k in ("tree", "dot", "flame", "literal") or k in ("dot", "flame") and not finite(e, m, True) or k == "flame" and e.dag:
        k = "json"
    s = Step(k, [e])
    ctx.hit("export_" + k)
    if k == "tree":
        kw = dict(metric_column=rng.choice([m, [m], None]) if g.default_metric in g.dataframe.columns else m, render_header=rng.random() < 0.5, precision=rng.randint(0, 3), expand_name=rng.random() < 0.5,
                  highlight_name=rng.random() < 0.3, invert_colormap=rng.random() < 0.3, depth=rng.choice([1, 3, 10000]), context_column=rng.choice(["file", "module"]))
        pure(s, lambda: g.tree(**kw, **sel), str)
    elif k == "dot":
        pure(s, lambda: g.to_dot(metric=m, **sel), str)
    elif k == "flame":
        pure(s, lambda: g.to_flamegraph(metric=m, **sel), str)
    elif k == "literal":
        pure(s, lambda: g.to_literal(cat_columns=rng.choice([[], ["module"]]) if False else [], **sel), repr)
    elif k == "dict":
        pure(s, g.to_dict, repr)
    elif k == "json":
        t = pure(s, g.to_json, str)
        if rng.random() < 0.3:
            return s, [], [((e,), "read", GraphFrame.from_json(t))]
    elif k == "hdf":
        f = os.path.join(ctx.tmpdir(), "h%d.h5" % rng.randrange(10 ** 9))
        g.to_hdf(f, key="k")
        return s, [], [((e,), "read", GraphFrame.from_hdf(f, key="k"))]
    else:
        pure(s, g.show_metric_columns, lambda x: sorted(map(str, x)))
    return s, [], []

def op_user(ctx, rng, pool):
    """The user edits one frame through its public attributes."""
    e = need(rng, pool)
    k = rng.randrange(4)
    s = Step("user edit %d" % k, [e])
    if k == 0:
        e.gf.metadata["note%d" % rng.randrange(3)] = rng.randrange(100)
    elif k == 1:
        e.gf.dataframe["mine"] = 1.5
        if "mine" not in e.gf.exc_metrics:
            e.gf.exc_metrics.append("mine")
    elif k == 2:
        e.gf.default_metric = rng.choice(list(e.gf.exc_metrics) + list(e.gf.inc_metrics))
    else:
        c = "twice %d" % rng.randrange(2)
        e.gf.dataframe[c] = e.gf.dataframe[metric(e)] * 2
        if c not in e.gf.inc_metrics:
            e.gf.inc_metrics.append(c)
    ctx.hit("user_edits")
    return s, [e], [((e,), "edited", e.gf)]

def op_rows(ctx, rng, pool):
    """The user drops rows of some nodes from the dataframe."""
    e = need(rng, pool, lambda e: len(e.gf.dataframe) > 2)
    if e is None:
        return None
    keep = [rng.random() < 0.8 for _ in range(len(e.gf.dataframe))]
    if not any(keep):
        return None
    s = Step("rows dropped", [e])
    e.gf.dataframe = e.gf.dataframe[keep]
    return s, [e], [((e,), "same", e.gf)]

OPS = [(op_filter, 5), (op_filter_fails, 1), (op_squash, 3), (op_copy, 2), (op_graph, 2), (op_arith, 3), (op_inplace, 3), (op_unify, 2), (op_drop, 1), (op_sums, 3), (op_groupby, 1), (op_export, 4), (op_user, 2), (op_rows, 1)]

def run(ctx, rng, monitor, steps, pool_size=5, real=False):
    pool = start_real(ctx, rng) if real else start(rng, rng.choice([2, 2, 3]))
    log = []
    count = len(pool)
    ops, wts = zip(*OPS)
    for _ in range(steps):
        op = rng.choices(ops, wts)[0]
        kept = monitor.before(pool)
        try:
            r = op(ctx, rng, pool)
            if r is None:
                continue
            step, changed, new = r
            log.append(str(step))
            ctx.hit("steps"); ctx.hit(op.__name__)
            monitor.after(step, pool, kept, changed, new)
        except Violation as v:
            v.detail = dict(v.detail or {}, history=log[-14:])
            raise
        except Exception as x:
            x.args = (("%s after %s" % (x, log[-10:])),)
            raise
        for src, kind, gf in new:
            if any(gf is e.gf for e in pool) or kind == "grouped":
                continue
            count += 1
            n = Entry(gf, "g%d" % count, src[0].dag, src[0].real)
            if kind == "copy":
                n.shares = src[0].shares
                n.shares.append(n)
            if len(pool) < pool_size:
                pool.append(n)
            else:
                pool[rng.randrange(pool_size)] = n
        ctx.sample({"history": log[:12]}, limit=1) if len(log) >= steps - 1 else None
    return pool, log
