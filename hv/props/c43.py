import collections, importlib, numbers, os
from .. import core
from ..core import Skip
RULE = ("profiles of every format synthesised by the readers' workloads, read completely and then again with one file cut off at a random byte (formats with a closing syntax or a known size) or after a random line (TAU, native Caliper); "
        "oracle = the second read raises an error, or gives for each call path, rank, thread and metric the value of the complete profile (line-based formats: or no value); non-trivial = a profile of at least 3 rows and a distinct cut")
FORMATS = {"from_hpctoolkit": [("c30", "database")], "from_caliper": [("c31", "regions"), ("c31", "callpaths")], "from_caliperreader": [("c32", "records")], "from_timeseries": [("c33", "intervals")], "from_tau": [("c34", "directories")],
           "from_timemory": [("c35", "trees")], "from_gprof_dot": [("c36", "callgraphs")], "from_cprofile": [("c37", "synthesised")], "from_pyinstrument": [("c38", "synthesised")], "from_hdf": [("c25", "hdf")], "from_json": [("c24", "json")]}
LINES = ("from_tau", "from_caliperreader", "from_timeseries")
REQUIRED = dict({"cut " + f: 20 for f in FORMATS}, refused=300, read_in_part=10, values_compared=200)

def plain(v):
    """Missing values turn a column of integers into one of floats."""
    return repr(float(v)) if isinstance(v, numbers.Real) else repr(v)

def values(gf):
    """{(call paths, rank, thread): {metric: Counter of values}}"""
    gfs = gf if isinstance(gf, list) else [gf]
    out = {}
    for k, g in enumerate(gfs):
        mets = [m for m in g.exc_metrics + g.inc_metrics if m in g.dataframe.columns]
        paths = {id(n): tuple(sorted(tuple(repr(x.frame.attrs) for x in p) for p in n.paths())) for n in g.graph.traverse()}
        for r in g.dataframe.reset_index().to_dict("records"):
            row = out.setdefault((k, paths[id(r["node"])], r.get("rank"), r.get("thread")), {})
            for m in mets:
                row.setdefault(m, collections.Counter())[plain(r[m])] += 1
    return out

class Done(Exception):
    pass

NONE = ("nan", "None", "<NA>", "0.0")

def cut_file(ctx, rng, name, path):
    files = [path] if os.path.isfile(path) else sorted(os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs)
    f = rng.choice(files)
    b = open(f, "rb").read()
    if not b:
        raise Skip()
    if name in LINES:
        ends = [0] + [i + 1 for i, c in enumerate(b[:-1]) if c == 10]
        # a cut in the tail leaves something to read
        k = rng.choice(ends[len(ends) // 2:] if rng.random() < 0.7 else ends)
    else:
        k = rng.choice([rng.randrange(len(b)), max(0, len(b) - rng.randint(1, 16)), len(b) // 2])
    open(f, "wb").write(b[:k])
    return os.path.basename(f), k, len(b)

def watched(ctx, rng, name, f):
    def g(*a, **k):
        src = a[0] if a else None
        if isinstance(src, str) and os.path.isabs(src) and os.path.exists(src):
            pass
        elif not (name == "from_json" and isinstance(src, str)):
            return f(*a, **k)
        try:
            whole = values(f(*a, **k))
        except Exception:
            raise Skip()
        if name == "from_json":
            p = rng.randrange(len(src))
            what = ("text", p, len(src))
            a = (src[:p],) + a[1:]
        else:
            what = cut_file(ctx, rng, name, src)
        ctx.hit("cut " + name)
        if len(whole) >= 3:
            ctx.nontrivial(name, len(whole), what)
        ctx.sample({"reader": name, "file": what[0], "kept": what[1], "of": what[2]})
        try:
            part = f(*a, **k)
        except (Exception, SystemExit):
            ctx.hit("refused")
            raise Done()
        try:
            part = values(part)
        except Exception:
            ctx.expect(False, "cut:unusable", "%s of %s cut off at %d of %d returned a graphframe that cannot be looked at" % ((name,) + what))
        ctx.hit("read_in_part", part != whole)
        if part != whole:
            ctx.expect(name in LINES, "cut:" + name, "%s accepted %s cut off at %d of %d bytes and gave other contents" % ((name,) + what), rows=len(part), rows_of_all=len(whole))
            if name == "from_timeseries":       # an interval cut off shows what was recorded at the start instead
                merged = {}
                for key, row in whole.items():
                    for m, vs in row.items():
                        merged.setdefault(key[1:], {}).setdefault(m, collections.Counter()).update(vs)
                whole = {key: merged[key[1:]] for key in part if key[1:] in merged}
            for key, row in part.items():
                # nodes whose record is cut off may have lost what told them apart
                full = whole.get(key)
                if full is None:
                    continue
                for m, vs in row.items():
                    ctx.hit("values_compared")
                    odd = [v for v in vs if v not in NONE and v not in full.get(m, {})]
                    ctx.expect(not odd, "cut:" + name, "%s of %s cut off at %d of %d bytes gave another value" % ((name,) + what), row=key, metric=m, got=odd, value=dict(full.get(m, {})))
        raise Done()
    return g

def case(ctx, rng, name):
    from hatchet import GraphFrame
    mod, scen = rng.choice(FORMATS[name])
    m = importlib.import_module("hv.props." + mod)
    fn = dict((s[0], s[1]) for s in m.SCENARIOS)[scen]
    inner = core.Ctx(mod.upper(), ctx.seed, ctx.tier)
    inner._dir = ctx.tmpdir()
    raw = GraphFrame.__dict__[name]
    setattr(GraphFrame, name, staticmethod(watched(ctx, rng, name, raw.__func__)))
    try:
        inner.case = {"scenario": scen, "index": 0}
        fn(inner, rng)
    except (Done, Skip):
        pass
    except core.Violation as v:
        if v.key.startswith("cut:"):
            raise
    finally:
        setattr(GraphFrame, name, raw)

SCENARIOS = [(n[5:], (lambda n: lambda ctx, rng: case(ctx, rng, n))(n), 160 if n in LINES + ("from_timemory",) else 80, 800) for n in FORMATS]
