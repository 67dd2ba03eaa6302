import os
from .. import gen, obs, readers
from ..cali import Cali, VALUE, NESTED, GLOBAL
RULE = ("native .cali files written from random region forests: ranks, regions without own records, several records per region with different metrics, int/uint/double/bool values, aliases, "
        "node order, foreign spot channels, CUPTI activities, string attributes, run metadata of every kind; read by file name and CaliperReader object with native and user-facing names; "
        "oracle = the written records; non-trivial = >=4 regions")
REQUIRED = {"files": 300, "ranked": 100, "unrecorded_regions": 150, "split_records": 100, "aliases": 100, "native_names": 60, "ordered": 40, "foreign_channel": 60, "activities": 60, "string_attributes": 40,
            "reader_objects": 60, "metadata_values": 300, "read_values": 5000, "bools": 40, "forests": 40, "inclusive_only": 15, "errors": 3}
OLD = {"mpi.rank": "rank", "module#cali.sampler.pc": "module", "sum#time.duration": "time", "sum#avg#sum#time.duration": "time",
       "inclusive#sum#time.duration": "time (inc)", "sum#avg#inclusive#sum#time.duration": "time (inc)"}
METRICS = [("sum#time.duration", "double", None), ("inclusive#sum#time.duration", "double", None), ("avg#inclusive#sum#time.duration", "double", "Avg time/rank"), ("count", "uint", None),
           ("sum#inclusive#sum#time.duration", "double", "Total time (inc)"), ("offset", "int", "Offset"), ("flag", "bool", None), ("aggregate.slot", "uint", None)]

def metadata(ctx, rng, c):
    """Global attributes: written text -> expected value."""
    want, refs, vals = {}, [], []
    for k, (text, v) in rng.sample(sorted({"jobsize": ("8", 8), "fom": ("12.5", 12.5), "neg": ("-3", -3), "exp": ("1e3", 1000.0), "user": ("joe", "joe"), "cmdline": ("[./prog,-s,30]", ["./prog", "-s", "30"]),
                                           "one": ("(a)", ["a"]), "only": ("[x]", ["x"]), "bytes": ("123456789012345678", 123456789012345678), "libs": ("(a, b)", ["a", "b"]), "cali.caliper.version": ("2.10.0-dev", "2.10.0-dev"), "path": ("/usr/lib", "/usr/lib"),
                                           "odd": ("[x", "[x"), "jobid": ("12345_7", "12345_7"), "build": ("1_0.5", "1_0.5"), "args": ("[./p,a[0]]", ["./p", "a[0]"]), "calls": ("(f(x), g(y))", ["f(x)", "g(y)"]), "under": ("[a_1,b]", ["a_1", "b"]), "text": ("a=b, c", "a=b, c")}.items()), rng.randint(0, 8)):
        want[k] = v
        ctx.hit("metadata_values")
        if rng.random() < 0.5:
            refs.append(c.node(c.attr(k, "string", GLOBAL), text))
        else:
            vals.append((c.attr(k, "string", GLOBAL | VALUE), text))
    c.record(refs, vals, "globals")
    return want

def text(t, v):
    return {True: "true", False: "false"}[v] if t == "bool" else ("%.6f" % v if t == "double" else str(v))

def value(ctx, rng, t):
    if t == "bool":
        ctx.hit("bools")
        return rng.random() < 0.5
    if t == "double":
        return round(gen.frac(rng, 0, 4000), 6)
    return rng.randint(0, 5000) - (900 if t == "int" else 0)

def region_tree(rng, **kw):
    """Region forest with unique sibling names; returns (model, path of names per node)."""
    m = gen.gen_graph(rng, kind=rng.choice(["tree", "forest"]), **kw)
    m.frames = [{"type": "function", "name": f["name"]} for f in m.frames]
    paths = [None] * len(m.frames)
    def go(i, p):
        paths[i] = p + (m.frames[i]["name"],)
        for c in m.children[i]:
            go(c, paths[i])
    for r in m.roots:
        go(r, ())
    return m, paths

def from_paths(types):
    """Model of the tree spanned by the recorded paths {path: frame type} and their prefixes."""
    m, at = gen.Model(), {}
    def add(p):
        if p not in at:
            if len(p) > 1:
                add(p[:-1])
            at[p] = len(m.frames)
            m.frames.append({"type": types.get(p, "function"), "name": p[-1]}); m.children.append([])
            (m.roots if len(p) == 1 else m.children[at[p[:-1]]]).append(at[p])
        return at[p]
    for p in types:
        add(p)
    return m, at

def context(rng, c, path):
    """Tree node of a region path; the attribute of each level is one of the nested ones."""
    n = None
    for i, name in enumerate(path):
        kind = ["function", "loop", "annotation", "region"][(hash_(name) + i) % 4]
        n = c.node(c.attr(kind, "string", NESTED | 12), name, n)
    return n

def hash_(s):
    return sum(map(ord, s))

def case(ctx, rng):
    from hatchet import GraphFrame
    import caliperreader
    c = Cali(rng)
    rm, rpaths = region_tree(rng, max_n=rng.choice([2, 6, 12, 25]))
    defs = rng.sample(METRICS, rng.randint(1, 5))
    alias = rng.random() < 0.6
    ranked = rng.random() < 0.5
    nr = rng.choice([1, 2, 3, 4] * 4 + [12]) if ranked else 1
    ordered = rng.random() < 0.2
    channel = rng.random() < 0.4
    strs = rng.choice([[], [], ["tag"], ["tag", "module#cali.sampler.pc"]])
    act = rng.random() < 0.3
    names = {}
    for n, t, a in defs:
        if alias and a:
            ctx.hit("aliases")
        names[n] = a if (alias and a) else n
    native = rng.random() < 0.3
    ctx.hit("native_names", native)
    disp = lambda n: OLD.get(n if native else names.get(n, n), n if native else names.get(n, n))
    types, vals = {}, {}                       # path -> frame type; (path, rank) -> {attribute: value}
    seq = [p for p in rpaths if rng.random() < 0.75] or [rng.choice(rpaths)]
    if rng.random() < 0.6:
        rng.shuffle(seq)
    orders = {}
    pool = rng.sample(range(1, 3000), 2500)
    jobs = []
    for p in seq:
        for r in range(nr):
            if ranked and rng.random() < 0.2:
                continue
            ms = [d for d in defs if rng.random() < 0.85]
            groups = [ms]
            if len(ms) > 1 and rng.random() < 0.3:
                k = rng.randint(1, len(ms) - 1)
                groups = [ms[:k], ms[k:]]
                ctx.hit("split_records")
            for g in groups:
                jobs.append((p, r, g))
        if act and rng.random() < 0.5:
            for _ in range(rng.randint(1, 2)):
                kind = rng.choice(["kernel", "memcpy", "memset"])
                jobs.append((p, rng.randrange(nr), (kind, "krn<%d>(int, x=%d)" % (rng.randint(0, 2), rng.randint(0, 1)))))
    if rng.random() < 0.5:
        rng.shuffle(jobs)
    if not jobs:
        return
    for p, r, g in jobs:
        refs, v = [context(rng, c, p)], []
        a = None
        if isinstance(g, tuple):
            a = g
            refs.append(c.node(c.attr("cupti.activity.kind"), a[0]))
            if a[0] == "kernel":
                refs.append(c.node(c.attr("cupti.kernel.name"), a[1]))
            path = p + (a[1] if a[0] == "kernel" else a[0],)
            if (path, r) in vals or path in rpaths:
                continue
            types[path] = a[0]
            ctx.hit("activities")
            g = defs
        else:
            path = p
            types.setdefault(path, "function")
        row = vals.setdefault((path, r), {})
        if ordered:
            orders.setdefault(path, pool.pop())
            v.append((c.attr("min#min#aggregate.slot", "uint", VALUE, "Node order"), orders[path]))
        for n, t, al in g:
            x = value(ctx, rng, t)
            row[n] = x
            v.append((c.attr(n, t, VALUE, al if alias else None), text(t, x)))
        if ranked:
            v.append((c.attr("mpi.rank", "int", VALUE), r))
        for s in strs:
            if s not in row and rng.random() < 0.7:
                row[s] = rng.choice(["x", "a,b", "lib c"])
                refs.append(c.node(c.attr(s), row[s]))
        c.attr("noise", "string")
        if rng.random() < 0.2:
            refs.append(c.node(c.attr("noise"), "n"))
        if channel:
            refs.append(c.node(c.attr("spot.channel"), "regionprofile"))
        rng.shuffle(v)
        c.record(refs, v)
        if channel and rng.random() < 0.3:      # the same region in another channel does not count
            ctx.hit("foreign_channel")
            c.record([context(rng, c, rng.choice(rpaths)), c.node(c.attr("spot.channel"), rng.choice(["timeseries", "memcheck", "regionprofile.2", "region"]))], [(a_, "77") for a_, _ in v])
        if rng.random() < 0.15:                 # a record outside all regions
            c.record([], v)
    meta = metadata(ctx, rng, c)
    f = os.path.join(ctx.tmpdir(), "p.cali")
    c.write(f)
    kw = {}
    if native or rng.random() < 0.2:
        kw["native"] = native
    if strs:
        kw["string_attributes"] = strs[0] if len(strs) == 1 and rng.random() < 0.5 else list(strs)
        ctx.hit("string_attributes")
    src = f
    if rng.random() < 0.35:
        src = caliperreader.CaliperReader()
        src.read(f)
        ctx.hit("reader_objects")
    gf = GraphFrame.from_caliperreader(src, **kw)
    ctx.hit("files"); ctx.hit("ranked", ranked); ctx.hit("ordered", ordered)
    m, at = from_paths(types)
    ctx.hit("unrecorded_regions", sum((p, r) not in vals for p in at for r in range(nr))); ctx.hit("forests", len(m.roots) > 1)
    if ranked:
        nr = 1 + max(r for _, r in vals)
    used = {n for row in vals.values() for n in row}
    mets = [n for n, t, a in defs if n in used]
    # aggregate.slot is internal to Caliper and not shown under its native name
    hidden = {"aggregate.slot"}
    shown = [n for n in mets if n not in hidden]
    want = {}
    for p, i in at.items():
        for r in range(nr):
            row = vals.get((p, r))
            w = {disp(n): (0 if row is None else row.get(n, gen.NAN)) for n in shown}
            for s in strs:
                if s in used:
                    w[OLD.get(s, s)] = None if row is None else row.get(s)
            w["name"] = p[-1]
            want[(i, (r,) if ranked else ())] = w
    obs.check_gf(ctx, gf, "native", every_node_has_rows=True)
    to = readers.match(ctx, gf, m)
    cols = {disp(n) for n in shown} | {OLD.get(s, s) for s in strs if s in used} | {"nid", "name"} | ({"spot.channel"} if channel else set())
    slot = "min#min#aggregate.slot"
    if ordered and native:
        cols.add(slot)
    readers.rows(ctx, gf, to, ["rank"] if ranked else [], want, cols)
    isinc = lambda n: "(inc)" in n or "inclusive" in n
    pre = [(n if native else names[n]) for n in shown]
    inc = [OLD.get(n, n) for n in pre if isinc(n)]
    exc = [OLD.get(n, n) for n in pre if not isinc(n)] + ([slot] if ordered and native else [])
    readers.metrics(ctx, gf, exc, inc)
    ctx.equal(gf.metadata, meta, "native-metadata", "metadata")
    for k in meta:
        ctx.equal(type(gf.metadata[k]), type(meta[k]), "native-metadata", "type of %s" % k)
    if exc or inc:
        ctx.expect(gf.default_metric in gf.dataframe.columns, "native-default", "default metric %r is no column" % gf.default_metric)
    ctx.hit("inclusive_only", bool(inc) and "time" not in exc)
    nid = {}
    for n, x in zip(gf.dataframe.index.get_level_values("node"), gf.dataframe["nid"].tolist()):
        nid.setdefault(id(n), set()).add(x)
    ctx.expect(all(len(v) == 1 for v in nid.values()) and len(set().union(*nid.values())) == len(nid), "native-nid", "ids of the regions")
    if ordered and all(p in orders for p in at):
        for p, i in at.items():
            ch = sorted(m.children[i], key=lambda c: to[c]._hatchet_nid)
            o = [orders[p + (m.frames[c]["name"],)] for c in ch]
            ctx.equal(o, sorted(o), "native-order", "order of the children of %s" % (p,))
    if len(m.frames) >= 4:
        ctx.nontrivial(m.shape_sig(), sorted(want), mets)
    ctx.sample({"regions": len(m.frames), "ranks": nr, "metrics": sorted(cols)})

def errors(ctx, rng):
    from hatchet import GraphFrame
    f = os.path.join(ctx.tmpdir(), "p.json")
    open(f, "w").close()
    ctx.raises(ValueError, lambda: GraphFrame.from_caliperreader(f), "native-error", "no .cali file")
    ctx.hit("errors")

SCENARIOS = [("records", case, 2250, 8000), ("errors", errors, 3, 5)]
