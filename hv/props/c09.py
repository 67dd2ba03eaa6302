import math
from .. import gen, obs
from ..core import same
from .c08 import project, survive_rows, squash
RULE = "random graphframes (repeated sibling frames so merges happen, NaN, zero, negative values, several metrics, single/multi-index) x random survivor row sets, squashed with and without inclusive update; oracle = per-path ledger; non-trivial = at least two rows merged"
REQUIRED = {"merged_rows": 200, "nan_merges": 30, "all_nan_merges": 5, "totals": 400, "multi_index": 100, "lone_inclusive": 60}

def msum(vs):
    vs = [v for v in vs if v == v]
    return sum(vs) if vs else gen.NAN

def case(ctx, rng):
    kind = rng.choice(["tree", "tree", "forest", "dag"])
    exc = rng.choice([["time"], ["time", "bytes"], ["t (exc)"], ["time", "count (exc)"]])
    inc = rng.choice([["time (inc)"], ["time (inc)", "total"], ["t"], []])
    names = rng.sample(gen.NAMES, rng.choice([1, 2, 3]))
    if kind == "dag":
        m = gen.gen_graph(rng, kind="dag", max_n=10)
        m.frames = [{"name": "n%d" % i, "type": "function"} for i in range(len(m.frames))]
    else:
        m = gen.gen_graph(rng, kind=kind, unique=rng.random() < 0.4, names=names, max_n=rng.choice([6, 12, 18]))
    gen.gen_rows(rng, m, exc=exc, inc=inc, nanp=rng.choice([0, 0.2, 0.6]))
    gf, nodes = gen.build(m)
    keep = survive_rows(rng, m)
    update = rng.random() < 0.3 and bool(exc)
    s = squash(ctx, rng, m, gf, nodes, keep, update=update)
    surv = {k[0] for k in keep}
    proj = project(m, surv)
    groups = {}
    for i, c in keep:
        groups.setdefault((frozenset(proj[i]), c), []).append(m.rows[(i, c)])
    rows = obs.rows_by_path(s)
    ctx.equal(set(rows), set(groups), "squash-rows", "row keys", shape=m.shape_sig(), keep=keep)
    # inclusive metrics without an exclusive partner are summed up as well
    fresh = {e[:-len("(exc)")].strip() if e.endswith("(exc)") else e + " (inc)" for e in exc} if update else set()
    mets = exc + [i for i in inc if i not in fresh]
    ctx.hit("lone_inclusive", update and len(mets) > len(exc))
    if m.levels:
        ctx.hit("multi_index")
    for k, src in groups.items():
        got = rows[k]
        if len(src) > 1:
            ctx.hit("merged_rows"); ctx.nontrivial(m.shape_sig(), tuple(keep))
        for mt in mets:
            vs = [r[mt] for r in src]
            if len(vs) > 1 and any(v != v for v in vs):
                ctx.hit("nan_merges")
                if all(v != v for v in vs):
                    ctx.hit("all_nan_merges")
            ctx.equal(got[mt], msum(vs), "metric-sum", "%s of %d merged rows at %s" % (mt, len(src), sorted(k[0])[:1]), rows=src)
        for col in m.columns:
            if col not in exc + inc:
                ctx.expect(any(same(got[col], r[col]) for r in src), "other-column",
                           "column %s holds %r, merged rows hold %r" % (col, got[col], [r[col] for r in src]))
    for mt in mets:     # conservation per rank/thread and overall
        ctx.hit("totals")
        per = {}
        for (i, c) in keep:
            v = m.rows[(i, c)][mt]
            per[c] = per.get(c, 0.0) + (0 if v != v else v)
        gotp = {}
        for (p, c), r in rows.items():
            gotp[c] = gotp.get(c, 0.0) + (0 if r[mt] != r[mt] else r[mt])
        ctx.equal(gotp, per, "conservation", "total of %s per index" % mt)
    ctx.equal(sorted(c for c in s.dataframe.columns if c in m.columns), sorted(m.columns), "columns", "columns lost")
    ctx.equal(sorted(s.exc_metrics), sorted(exc), "metric-lists", "exclusive metrics")
    ctx.expect(set(inc) <= set(s.inc_metrics), "metric-lists", "inclusive metrics lost: %s" % s.inc_metrics)
    ctx.equal((s.default_metric, s.metadata), (m.default_metric, m.metadata), "metadata", "default metric / metadata")
    ctx.sample({"shape": m.shape_sig(), "merged_groups": sum(len(v) > 1 for v in groups.values()), "levels": m.levels})

SCENARIOS = [("ledger", case, 4000, 15000)]
