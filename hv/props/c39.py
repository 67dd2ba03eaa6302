import sys, types
from .. import gen, obs, readers
RULE = ("Spot databases served by a stand-in database object (and through connect() of a stand-in spotdb module): several runs, id selections (all, some, none, unknown, reordered), region paths in any order with unrecorded "
        "prefixes and time outside all regions, metrics of every type given as text or number, aliases, missing metrics; SpotDatasetReader and SpotDBReader with default metrics; oracle = the served data; "
        "non-trivial = >=4 regions")
REQUIRED = {"databases": 150, "runs": 300, "unknown_ids": 40, "no_ids": 15, "selected": 60, "all_ids": 40, "unrecorded_prefix": 150, "outside_regions": 60, "aliases": 100, "text_values": 100, "connect": 40, "read_values": 4000,
            "other_default": 40, "dataset_reader": 60, "forests": 40}
ATTRS = [("sum#inclusive#sum#time.duration", "double", "Total time"), ("avg#inclusive#sum#time.duration", "double", "Avg time/rank"), ("sum#time.duration", "double", None), ("count", "uint", "Calls"), ("offset", "int", None),
         ("tag", "string", None), ("noinfo", None, None)]

def profile(ctx, rng):
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "tree", "forest"]), max_n=rng.choice([1, 3, 7, 14]))
    paths = [None] * len(m.frames)
    def go(i, p):
        paths[i] = p + (m.frames[i]["name"].replace("/", "|") or "x",)
        for c in m.children[i]:
            go(c, paths[i])
    for r in m.roots:
        go(r, ())
    rec = [p for p in dict.fromkeys(paths) if rng.random() < 0.8] or [paths[0]]
    rng.shuffle(rec)
    attrs = rng.sample(ATTRS, rng.randint(1, len(ATTRS)))
    prof, want = {}, {}
    if rng.random() < 0.3:
        prof[""] = {"sum#inclusive#sum#time.duration": 99.0}
        ctx.hit("outside_regions")
    for p in rec:
        vals, w = {}, {"name": p[-1]}
        for n, t, a in attrs:
            if rng.random() < 0.85:
                v = gen.frac(rng, 0, 4000) if t == "double" else "text %d" % rng.randint(0, 3) if t == "string" else rng.randint(0, 500)
                text = rng.random() < 0.4 and t in ("double", "int", "uint")
                ctx.hit("text_values", text)
                vals[n] = str(v) if text else v
                w[disp(n, a)] = v
                ctx.hit("aliases", a is not None)
        prof["/".join(p)] = vals
        want[p] = w
    return prof, want, attrs

def disp(n, a):
    return (a or n) + (" (inc)" if "inclusive" in n else "")

def check(ctx, gf, prof, want, attrs, meta, default):
    used = {n for v in prof.values() for n in v if prof}
    used = {n for p, v in prof.items() if p for n in v}
    cols = {disp(n, a): n for n, t, a in attrs if n in used}
    m, at = gen.Model(), {}
    def add(p):
        if p not in at:
            if len(p) > 1:
                add(p[:-1])
            at[p] = len(m.frames)
            m.frames.append({"name": p[-1]}); m.children.append([])
            (m.roots if len(p) == 1 else m.children[at[p[:-1]]]).append(at[p])
    for p in want:
        add(p)
    ctx.hit("forests", len(m.roots) > 1); ctx.hit("unrecorded_prefix", len(at) - len(want))
    obs.check_gf(ctx, gf, "spot", every_node_has_rows=True)
    to = readers.match(ctx, gf, m)
    full = {}
    for p, i in at.items():
        full[(i, ())] = {"name": p[-1], **{c: want.get(p, {}).get(c, gen.NAN) for c in cols}}
    readers.rows(ctx, gf, to, [], full, set(cols) | {"name"})
    readers.metrics(ctx, gf, [c for c in cols if "(inc)" not in c], [c for c in cols if "(inc)" in c])
    ctx.equal(gf.metadata, meta, "spot-metadata", "metadata")
    if default in cols:
        ctx.equal(gf.default_metric, default, "spot-default", "default metric")
    elif cols:
        inc = [c for c in cols if "(inc)" in c]
        ctx.expect(gf.default_metric in (inc or cols), "spot-default", "default metric %r is no (inclusive) metric" % gf.default_metric)
    if len(m.frames) >= 4:
        ctx.nontrivial(m.shape_sig(), sorted(cols), sorted(want))

def info_of(attrs_all):
    d = {}
    for n, t, a in attrs_all:
        if t:
            d[n] = {"type": t}
            if a:
                d[n]["alias"] = a
    return d

def meta(rng):
    return {"launchdate": rng.randint(1, 10 ** 9), "figure_of_merit": rng.randint(0, 99) * 0.5, "user": rng.choice(["a", "b"])}

def dataset(ctx, rng):
    from hatchet.readers.spotdb_reader import SpotDatasetReader
    prof, want, attrs = profile(ctx, rng)
    md = meta(rng)
    kw, default = {}, "Total time (inc)"
    if rng.random() < 0.5:
        kw["default_metric"] = default = rng.choice(["Calls", "Avg time/rank (inc)", "nope"])
        ctx.hit("other_default")
    gf = SpotDatasetReader(prof, dict(md), info_of(ATTRS)).read(**kw)
    ctx.hit("dataset_reader")
    check(ctx, gf, prof, want, attrs, md, default)

class DB:
    """Stand-in for a spotdb database object."""
    def __init__(self, runs, info):
        self.runs, self.info, self.calls = runs, info, []
    def get_all_run_ids(self):
        return list(self.runs)
    def get_regionprofiles(self, ids):
        self.calls.append(list(ids))
        return {r: {k: dict(v) for k, v in self.runs[r][0].items()} for r in reversed(list(ids)) if r in self.runs}
    def get_global_data(self, ids):
        return {r: dict(self.runs[r][3]) for r in ids if r in self.runs}
    def get_metric_attribute_metadata(self):
        return self.info

def database(ctx, rng):
    from hatchet import GraphFrame
    from hatchet.readers.spotdb_reader import SpotDBReader
    ids = rng.sample(["%d.cali" % i for i in range(9)], rng.randint(1, 5)) if rng.random() < 0.6 else rng.sample(range(20), rng.randint(1, 5))
    runs = {i: profile(ctx, rng) + (meta(rng),) for i in ids}
    db = DB(runs, info_of(ATTRS))
    sel = rng.choice([None, None, "some", "some", "none"])
    if sel == "some":
        sel = rng.sample(ids, rng.randint(1, len(ids)))
        ctx.hit("selected")
        if rng.random() < 0.5:
            sel.insert(rng.randint(0, len(sel)), "gone" if isinstance(ids[0], str) else 99)
            ctx.hit("unknown_ids")
    elif sel == "none":
        sel = []
        ctx.hit("no_ids")
    else:
        ctx.hit("all_ids")
    key, default = db, "Total time (inc)"
    mod = types.ModuleType("spotdb")
    opened = []
    if rng.random() < 0.4:
        key = rng.choice(["/data/runs", "x.sqlite"])
        mod.connect = lambda k, **kw: opened.append(k) or db
        ctx.hit("connect")
    old = sys.modules.get("spotdb")
    sys.modules["spotdb"] = mod
    try:
        if rng.random() < 0.3:
            default = rng.choice(["Calls", "nope"])
            gfs = SpotDBReader(key, sel, default).read()
            ctx.hit("other_default")
        else:
            gfs = GraphFrame.from_spotdb(key, sel) if sel is not None or rng.random() < 0.5 else GraphFrame.from_spotdb(key)
    finally:
        if old is None:
            del sys.modules["spotdb"]
        else:
            sys.modules["spotdb"] = old
    if key is not db:
        ctx.equal(opened, [key], "spot-connect", "database that was opened")
    want = [r for r in (ids if sel is None else sel) if r in runs]
    ctx.hit("databases"); ctx.hit("runs", len(want))
    ctx.equal(len(gfs), len(want), "spot-runs", "graphframes of the runs %s" % want)
    for r, gf in zip(want, gfs):
        prof, w, attrs, md = runs[r]
        check(ctx, gf, prof, w, attrs, md, default)
    ctx.sample({"runs": [str(i) for i in ids], "selected": str(sel), "key": "object" if key is db else key})

SCENARIOS = [("database", database, 1250, 4000), ("dataset", dataset, 750, 2000)]
