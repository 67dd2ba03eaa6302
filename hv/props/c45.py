"""Graphframes, graphs, frames and queries share no mutable data with what they were made from or exported to."""
import copy, importlib, json, os
from .. import core, gen, obs, det, cond
from ..core import Skip
RULE = ("objects are built from literals, lists, dictionaries, reader objects and databases, and exported; then every dictionary, list and set reachable from the source or from the export is overwritten in place; "
        "oracle = deep snapshot of the graphframe (or frame, or the query's answer) before and after; a second export after the overwriting equals the first; non-trivial = source or export with >= 10 overwritten containers")
REQUIRED = {"literal": 60, "json": 60, "constructor": 60, "frames": 400, "shared_frame_dicts": 100, "to_dict": 60, "to_literal": 60, "columns": 60, "query_results": 60, "queries": 150, "iterators": 80, "sources_timemory": 25, "sources_caliper": 25, "sources_spot": 25,
            "overwritten": 8000}
BUILTIN = (dict, list, set)

def scramble(x, rng, seen=None, depth=0):
    """Overwrite in place every container reachable from x."""
    seen = {} if seen is None else seen
    if id(x) in seen or depth > 60:
        return len(seen)
    if isinstance(x, dict):
        seen[id(x)] = x
        for v in list(x.values()):
            scramble(v, rng, seen, depth + 1)
        how = rng.randrange(3)
        if how == 0:
            x.clear()
        else:
            for k in list(x):
                if how == 1 or rng.random() < 0.5:
                    x[k] = "overwritten"
            try:
                x["added"] = "overwritten"
            except Exception:
                pass
    elif isinstance(x, list):
        seen[id(x)] = x
        for v in list(x):
            scramble(v, rng, seen, depth + 1)
        if rng.random() < 0.5:
            del x[:]
        else:
            x.reverse(); x.append("overwritten")
    elif isinstance(x, set):
        seen[id(x)] = x
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, rng, seen, depth + 1)
    elif type(x).__module__.split(".")[0] in ("caliperreader", "hv") and hasattr(x, "__dict__"):
        seen[id(x)] = x
        for v in list(vars(x).values()):
            scramble(v, rng, seen, depth + 1)
    return len(seen)

def literal_of(rng, m):
    def go(i):
        d = {"frame": dict(m.frames[i]), "metrics": {"time": gen.val(rng, 0), "time (inc)": gen.val(rng, 0)}}
        d["frame"].setdefault("name", "n%d" % i)
        if rng.random() < 0.3:
            del d["frame"]["type"]
        if m.children[i]:
            d["children"] = [go(c) for c in m.children[i]]
        return d
    return [go(r) for r in m.roots]

def hold(ctx, rng, gf, x, key, what, again=None):
    """Overwriting x leaves gf (and what it exports) as it is."""
    s = obs.snap(gf); md = dict(gf.metadata); dm = gf.default_metric
    frames = [(id(n), str(n.frame), hash(n.frame)) for n in obs.nodes_of(gf.graph)]
    first = again() if again else None
    n = scramble(x, rng)
    ctx.hit("overwritten", n)
    obs.expect_unchanged(ctx, s, gf, key, what)
    ctx.expect(gf.metadata == md and gf.default_metric == dm, key, what + ": metadata", before=md, after=gf.metadata)
    ctx.equal([(id(n), str(obs_frame(n)), hash(obs_frame(n))) for n in obs.nodes_of(gf.graph)], frames, key, what + ": frames")
    if again:
        ctx.equal(again(), first, key, what + ": another export")
    return n

def obs_frame(n):
    n.frame._tuple_repr = None          # the representation is derived from the attributes when first needed
    return n.frame

def sources(ctx, rng):
    from hatchet import GraphFrame
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "forest"]), max_n=9)
    kind = rng.choice(["literal", "json", "constructor"])
    if kind == "literal":
        x = literal_of(rng, m)
        gf = GraphFrame.from_literal(x)
        n = hold(ctx, rng, gf, x, "source-shared", "the literal was overwritten after from_literal()")
    elif kind == "json":
        _, g0, _ = gen.gen_gf(rng, max_n=8, kind=rng.choice(["tree", "forest", "dag"]))
        from hatchet.readers.json_reader import JsonReader
        r = JsonReader(g0.to_json())
        gf = r.read()
        n = hold(ctx, rng, gf, r.spec_dict, "source-shared", "the JSON reader's specification was overwritten after read()")
    else:
        _, g0, _ = gen.gen_gf(rng, max_n=8)
        exc, inc, md = list(g0.exc_metrics), list(g0.inc_metrics), {"a": 1, "b": "x"}
        gf = GraphFrame(g0.graph, g0.dataframe, exc, inc, g0.default_metric, md)
        n = hold(ctx, rng, gf, [exc, inc, md], "source-shared", "lists and metadata were overwritten after GraphFrame()")
    ctx.hit(kind)
    if n >= 10:
        ctx.nontrivial(kind, m.frames, m.children)

def frames(ctx, rng):
    from hatchet.frame import Frame
    for _ in range(4):
        attrs = gen.gen_frame(rng, gen.NAMES, True)
        if rng.random() < 0.4:
            attrs.pop("type", None)
        given = dict(attrs)
        kws = [{}] if rng.random() < 0.4 else [{"line": 1}, {"line": 2, "extra": "x"}, {"name": "other"}][:rng.randint(1, 3)]
        made = [Frame(given, **k) for k in kws]
        ctx.equal(given, attrs, "frame-argument", "Frame() changed the dictionary it was given")
        want = [dict({"type": "None"}, **dict(attrs, **k)) for k in kws]
        ctx.hit("shared_frame_dicts", len(kws) > 1)
        if rng.random() < 0.5:
            _ = [hash(f) for f in made]
        scramble(given, rng)
        for f, w in zip(made, want):
            ctx.equal(dict(f.attrs), w, "frame-shared", "Frame() shares the dictionary it was given")
            ctx.equal(f.tuple_repr, tuple(sorted(w.items())), "frame-shared", "Frame() shares the dictionary it was given")
        c = made[0].copy()
        c.attrs["changed"] = "x"
        ctx.equal(dict(made[0].attrs), want[0], "frame-shared", "a copy of a frame shares its attributes")
        v = made[0].values(["name", "type"])
        ctx.expect(isinstance(v, tuple), "frame-values", "values() of several names is no tuple")
        ctx.hit("frames")
    ctx.nontrivial(attrs)

def exports(ctx, rng):
    from hatchet.query import ObjectQuery
    m, gf, nodes = gen.gen_gf(rng, max_n=9, kind=rng.choice(["tree", "forest", "dag"]))
    if rng.random() < 0.3:
        gf.graph.node_ordering = True
    kind = rng.choice(["to_dict", "to_literal", "columns", "query_results"])
    if rng.random() < 0.3:
        gf.inc_metrics = []
    elif rng.random() < 0.2:
        gf.exc_metrics = []
    if kind == "to_literal" and any(v != v or v in (float("inf"), float("-inf")) for v in ()):
        raise Skip()
    mode = {"multi_index_mode": "all"} if gf.dataframe.index.nlevels > 1 else {}
    f = {"to_dict": gf.to_dict, "to_literal": lambda: gf.to_literal(cat_columns=["name"]), "columns": gf.show_metric_columns,
         "query_results": lambda: gf.query_engine.apply(ObjectQuery(["*"], **mode), gf.graph, gf.dataframe)}[kind]
    try:
        x = f()
    except Exception:
        raise Skip()
    again = {"to_dict": gf.to_json, "to_literal": lambda: repr(gf.to_literal()), "columns": gf.show_metric_columns, "query_results": lambda: sorted(n._hatchet_nid for n in f())}[kind]
    n = hold(ctx, rng, gf, x, "export-shared", "the result of %s was overwritten" % kind, again)
    ctx.hit(kind)
    if n >= 10:
        ctx.nontrivial(kind, m.frames, m.children)

def queries(ctx, rng):
    """A query keeps its meaning when the list and the dictionaries it was made from change."""
    from hatchet.query import ObjectQuery
    m, gf, nodes = gen.gen_gf(rng, max_n=9, names=rng.sample(gen.NAMES, 4), kind=rng.choice(["tree", "forest"]))
    names = sorted({f["name"] for f in m.frames if isinstance(f.get("name"), str) and f["name"].isalnum()}) or ["x"]
    mode = {"multi_index_mode": rng.choice(["all", "any"])} if gf.dataframe.index.nlevels > 1 else {}
    t = sorted(v for v in gf.dataframe["time"].tolist() if v == v) or [0.0]
    def pred():
        d = {}
        if rng.random() < 0.7:
            d["name"] = rng.choice([rng.choice(names), [rng.choice(names), ".*"], ".*"])
        if rng.random() < 0.5:
            d["time"] = rng.choice([">= %r" % rng.choice(t), "<= %r" % rng.choice(t), [">= %r" % t[0], "<= %r" % rng.choice(t)]])
        return d
    shared = pred()
    q = []
    for _ in range(rng.randint(1, 3)):
        d = shared if rng.random() < 0.4 else pred()
        q.append(rng.choice([d, ("*", d), ("+", d), (".", d), "*", "."]))
    given = copy.deepcopy(q)
    query = ObjectQuery(q, **mode)
    use = query if rng.random() < 0.6 else (query & ["*"]) if not mode else query
    run = lambda: sorted(n._hatchet_nid for n in gf.query_engine.apply(use, gf.graph, gf.dataframe))
    try:
        want = run()
    except Exception:
        raise Skip()
    ctx.equal(q, given, "query-argument", "ObjectQuery() changed the list it was given")
    def once(d):
        return {k: iter(v) if isinstance(v, list) else v for k, v in d.items()}
    if "[" in repr(given)[1:]:              # values that can be iterated only once
        one = ObjectQuery([once(x) if isinstance(x, dict) else (x[0], once(x[1])) if isinstance(x, tuple) else x for x in copy.deepcopy(given)], **mode)
        ctx.equal(sorted(n._hatchet_nid for n in gf.query_engine.apply(one, gf.graph, gf.dataframe)), sorted(n._hatchet_nid for n in gf.query_engine.apply(ObjectQuery(copy.deepcopy(given), **mode), gf.graph, gf.dataframe)), "query-iterators",
                  "iterators instead of lists in the query %r" % (given,))
        ctx.hit("iterators")
    fresh = ObjectQuery(q, **mode) if rng.random() < 0.5 else None      # not used before the change
    ctx.hit("overwritten", scramble(q, rng))
    try:
        got = run()
    except Exception as e:
        got = "raised %r" % e
    ctx.equal(got, want, "query-shared", "the list an ObjectQuery was made from was changed: %r" % (given,))
    if fresh is not None:
        try:
            got = sorted(n._hatchet_nid for n in gf.query_engine.apply(fresh, gf.graph, gf.dataframe))
        except Exception as e:
            got = "raised %r" % e
        full = sorted(n._hatchet_nid for n in gf.query_engine.apply(ObjectQuery(given, **mode), gf.graph, gf.dataframe))
        ctx.equal(got, full, "query-shared", "the list an ObjectQuery was made from was changed before its first use: %r" % (given,))
    ctx.hit("queries")
    ctx.nontrivial(given)

INNER = [("c35", "trees", "timemory"), ("c32", "records", "caliper"), ("c39", "database", "spot")]

def readers(ctx, rng):
    """The dictionaries and reader objects given to the readers."""
    from hatchet.graphframe import GraphFrame
    mod, scen, label = rng.choice(INNER)
    m = importlib.import_module("hv.props." + mod)
    inner = core.Ctx(mod.upper(), ctx.seed, "quick")
    found = []
    def check(f, a, k):
        if a and isinstance(a[0], (dict, list)) or (a and not isinstance(a[0], str) and type(a[0]).__module__.split(".")[0] in ("caliperreader", "hv")):
            a2, k2 = copy.deepcopy(a), copy.deepcopy(k)
            try:
                r = f(*a2, **k2)
            except Exception:
                return
            gfs = r if isinstance(r, list) else [r]
            snaps = [(obs.snap(g), dict(g.metadata)) for g in gfs]
            ctx.hit("overwritten", scramble([a2, k2], rng))
            for g, (s, md) in zip(gfs, snaps):
                d = obs.diff(s, obs.snap(g))
                if d or g.metadata != md:
                    found.append((label, d or "metadata"))
            if gfs:
                ctx.hit("sources_" + label); ctx.nontrivial(label, rng.random())
    def wrap(cls, name):
        old = cls.__dict__[name]
        f = old.__func__
        def g(*a, **k):
            check(f, a, k)
            return f(*a, **k)
        setattr(cls, name, staticmethod(g))
        return old
    olds = {n: wrap(GraphFrame, n) for n in ("from_timemory", "from_caliperreader", "from_spotdb")}
    try:
        core.run_case(inner, scen, dict((s[0], s[1]) for s in m.SCENARIOS)[scen], rng.randrange(10 ** 6))
    finally:
        for n, old in olds.items():
            setattr(GraphFrame, n, old)
    ctx.expect(not found, "source-shared", "the source of a %s profile was overwritten after reading" % (found[0][0] if found else ""), found=found[:3])

SCENARIOS = [("sources", sources, 400, 3000), ("frames", frames, 300, 2000), ("exports", exports, 500, 4000), ("queries", queries, 500, 4000), ("readers", readers, 700, 5000)]
