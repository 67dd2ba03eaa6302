import difflib
from .. import det, samples
from ..core import Skip
RULE = ("cases of the other properties' workloads (readers, exporters, queries, squashes, unions, arithmetic, whole histories) run in three interpreters: this one, one with another string hash seed, one with another "
        "hash seed and allocator; the last two also with a scattered heap and shuffled directory listings; oracle = the ordered record of every public call's result (node numbering, row order, column order, metric lists, "
        "metadata, texts, errors) is the same in all; non-trivial = a case with at least one recorded result")
REQUIRED = {"compared_results": 2000, "cases_compared": 300, "workload_c41": 20}
W = {   # workload: (module, scenarios)
    "readers": [("c23", "literal"), ("c23", "lists"), ("c24", "json"), ("c25", "hdf"), ("c30", "database"), ("c31", "regions"), ("c31", "callpaths"), ("c32", "records"), ("c33", "intervals"), ("c34", "directories"),
                ("c35", "trees"), ("c36", "callgraphs"), ("c37", "synthesised"), ("c38", "synthesised"), ("c39", "database"), ("c39", "dataset")],
    "operations": [("c05", None), ("c06", None), ("c08", None), ("c09", None), ("c10", "update"), ("c11", "generate"), ("c12", None), ("c13", "quotient"), ("c14", None), ("c15", None), ("c18", "patterns"), ("c22", "expressions")],
    "exports": [("c26", None), ("c26", "tree"), ("c26", "tree"), ("c27", None), ("c28", None), ("c29", None)],
    "histories": [("c17", None)],
    "samples": [("c41", "sample")],
}

def sample(ctx, rng):
    """One profile shipped with the repository: read, exported and transformed."""
    name = rng.choice(sorted(samples.SAMPLES))
    try:
        gf = samples.load(name)
    except FileNotFoundError:
        raise Skip()
    num = [c for c in gf.exc_metrics + gf.inc_metrics if gf.dataframe[c].dtype.kind in "if"]
    met = rng.choice(num) if num else None
    t = sorted(x for x in gf.dataframe[met].tolist() if x == x) if met else []
    pred = (lambda r: r[met] > t[len(t) // 2]) if t else (lambda r: True)
    def each(*fs):
        for f in fs:
            try:
                f()
            except Exception:       # recorded as well
                pass
    big = len(gf.dataframe) > 300
    procs = {} if rng.random() < 0.4 else {"num_procs": 1}      # the default is the number of processors
    each(*([] if big else [lambda: gf.tree(metric_column=met), lambda: gf.to_dict(), lambda: gf.to_literal(), lambda: gf.copy().update_inclusive_columns()]),
         lambda: gf.to_dot(metric=met), lambda: gf.to_flamegraph(metric=met),
         lambda: gf.filter(pred, squash=not big, **procs), lambda: gf.copy().drop_index_levels(),
         lambda: gf.filter([("*", {"name": ".*[mM].*"})], num_procs=1, squash=not big), lambda: gf.deepcopy() + gf if not big else None, lambda: gf.deepcopy() - gf.filter(pred, num_procs=1, squash=True) if not big else None)

HIDDEN = [("sample", sample)]

def compare(ctx, rng, kind):
    import importlib
    def pick():
        mod, scen = rng.choice(W[kind])
        if scen is None:
            scen = rng.choice([s[0] for s in importlib.import_module("hv.props." + mod).SCENARIOS])
        return mod, scen, ctx.seed, rng.randrange(10 ** 6)
    q = pick()
    mod = q[0]
    before = None
    if rng.random() < 0.4:
        before = pick() if rng.random() < 0.5 else q[:3] + (rng.randrange(10 ** 6),)
    ps = det.peers(ctx.seed)
    ctx.hit("other_work_before", before is not None)
    ps[0].ask(q)
    ps[1].ask(q, before)
    log, outcome = det.record(*q)
    other = [p.answer() for p in ps]
    ctx.hit("cases_compared"); ctx.hit("workload_%s" % mod); ctx.hit("calls_recorded", len(log))
    for p, (l2, o2) in zip(ps, other):
        for k, (a, b) in enumerate(zip(log, l2)):
            ctx.hit("compared_results")
            if a != b:
                d = [x for x in difflib.unified_diff(a[1].splitlines(), b[1].splitlines(), lineterm="", n=0)][:12]
                ctx.expect(False, "determinism:" + a[0], "result %d of case %s differs between this interpreter and one with %s" % (k, q, p.name), difference=d, calls=[x[0] for x in log[:k + 1]][-8:])
        ctx.equal((len(l2), o2), (len(log), outcome), "determinism:outcome", "calls made and outcome of case %s, with %s" % (q, p.name))
    if log:
        ctx.nontrivial(*q)
    ctx.sample({"case": q, "calls": [x[0] for x in log][:10], "characters": sum(len(x[1]) for x in log)})

SCENARIOS = [(k, (lambda k: lambda ctx, rng: compare(ctx, rng, k))(k), *n) for k, n in {"readers": (1000, 8000), "operations": (900, 8000), "exports": (450, 3600), "histories": (120, 1200), "samples": (60, 600)}.items()]
