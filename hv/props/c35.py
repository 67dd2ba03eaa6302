import os, io, sys, json, copy, types
from .. import gen, obs, readers
RULE = ("timemory trees written from random region forests: scalar and multi-dimensional components, MPI / UPC++ / no distribution, several threads (with the dummy synchronisation nodes), regions differing per rank, "
        "thread and component, every prefix form; read from dictionaries, streams, files, directories and a stand-in timemory module, with and without component selection; oracle = the written tree; "
        "non-trivial = >=4 regions")
REQUIRED = {"inputs": 300, "dict_input": 60, "stream_input": 40, "file_input": 40, "dir_input": 40, "module_input": 20, "multi_component": 100, "vector_component": 60, "mpi": 80, "upcxx": 40, "no_dmp": 80,
            "multi_thread": 60, "sync_nodes": 60, "selected": 60, "equal_names": 12, "aggregated_threads": 12, "located": 300, "absent_records": 200, "read_values": 10000}
COMPS = {"WALL_CLOCK": "wall", "CPU_CLOCK": "cpu", "tim::component::PEAK_RSS": "peak_rss", "PAPI_VECTOR": ["Total_cycles", "Instr completed", "L2_cache misses in_all "], "component::NUM_IO": {"read ops": 1, "write_ops": 2, " max_bytes per_op": 3}, "USER_CLOCK": "user"}

def prefix(ctx, rng, name):
    """(prefix, name, file, line)"""
    name = name.replace(" ", "_").replace("/", "_").replace(":", "_").replace("@", "_").replace("[", "_").replace("]", "_") or "x"
    k = rng.randrange(7)
    l = rng.randint(1, 500)
    f = rng.choice(["a.cpp", "src.py", "b.cpp"])
    if k > 1:
        ctx.hit("located")
    return [(name, name, "<unknown>", "0"),
            ("%s-%d" % (name, l), "%s-%d" % (name, l), "<unknown>", "0"),
            ("[%s][%s]" % (name, f), name, f, "0"),
            ("%s@%s:%d/lp" % (name, f, l), name + "/lp", f, str(l)),
            ("%s/%s:%d/lp" % (name, f, l), name + "/lp", f, str(l)),
            ("lbl  [%s/%s:%d]" % (name, f, l), "lbl", f, str(l)),
            ("%s:%d/tl" % (name, l), name + "/tl", "<unknown file>", str(l))][k]

def case(ctx, rng):
    from hatchet import GraphFrame
    gm = gen.gen_graph(rng, kind=rng.choice(["tree", "forest"]), max_n=rng.choice([2, 4, 8, 14]))
    n = len(gm.frames)
    ev = [None] * n
    twins = rng.choice([0.1, 0.1, 0.8])
    def name_kids(kids):
        used, names = set(), set()
        for i in kids:
            while True:
                e = prefix(ctx, rng, "twin" if rng.random() < twins else gm.frames[i]["name"])
                if e[0] not in used and e[1:] not in used:
                    break
                gm.frames[i]["name"] += "x"
            used |= {e[0], e[1:]}
            ctx.hit("equal_names", e[1] in names)
            names.add(e[1])
            ev[i] = e
    name_kids(gm.roots)
    for i in range(n):
        name_kids(gm.children[i])
    m = gen.Model()
    m.roots, m.children, m.frames = gm.roots, gm.children, [{"type": "region", "name": e[1]} for e in ev]
    comps = rng.sample(sorted(COMPS), rng.choice([1, 1, 2, 3]))
    ctx.hit("multi_component", len(comps) > 1); ctx.hit("vector_component", any(not isinstance(COMPS[c], str) for c in comps))
    dmp = rng.choice(["graph", "graph", "mpi", "mpi", "upcxx", "upc", "both"])
    nr = 1 if dmp == "graph" else rng.choice([1, 2, 3] * 4 + [11])
    nu = rng.randint(1, 2) if dmp == "both" else 0
    ctx.hit("mpi", dmp in ("mpi", "both")); ctx.hit("upcxx", dmp in ("upcxx", "upc", "both")); ctx.hit("no_dmp", dmp == "graph")
    threads = [0] if rng.random() < 0.6 else sorted(rng.sample([0, 1, 2, 3, 10, 12], rng.randint(1, 3)))
    if rng.random() < 0.12:
        ctx.hit("aggregated_threads")
        threads = rng.choice([["1,2"], ["0,1,3"], [0, "1,2"]])
    short = {c: c.replace("tim::", "").replace("component::", "").lower() for c in comps}
    stats = ["sum"] + rng.sample(["min", "max", "mean"], rng.randint(0, 2))
    rec, want, laps = {}, {}, {}
    lab = lambda x: x.strip().replace(" ", "-").replace("_", "-")
    full = rng.random() < 0.5
    select = None
    if rng.random() < 0.3:
        pick = rng.sample(comps, rng.randint(1, len(comps)))
        select = [rng.choice([short[c], short[c].upper()]) if rng.random() < 0.7 else (lambda s: (lambda: s))(short[c].upper()) for c in pick]
        ctx.hit("selected")
    chosen = [c for c in comps if select is None or c in pick]
    for p in [(r, t) for r in range(nr + nu) for t in threads]:
        rec[p] = set()
        for i in m.roots:
            rec[p].add(i)
        def go(i):
            for c in m.children[i]:
                if full or rng.random() < 0.75:
                    rec[p].add(c); go(c)
        for i in m.roots:
            go(i)
    def stat(comp, i, p, inc):
        s = {"cereal_class_version": 0, "count": 3} if rng.random() < 0.7 else {}
        col = want.setdefault((i, p), {}) if comp in chosen else {}
        for k in stats:
            if isinstance(COMPS[comp], str):
                s[k] = gen.frac(rng, 0, 4000)
                col["%s.%s%s" % (k, short[comp], inc)] = s[k]
            else:
                names = [lab(x) for x in COMPS[comp]]
                vals = [float(rng.randint(0, 4000)) for _ in names]
                s[k] = vals if rng.random() < 0.7 else dict(zip(map(str, COMPS[comp]), vals))
                for a, v in zip(names, vals):
                    col["%s.%s%s" % (k, a, inc)] = v
        return s
    def node(comp, i, p, depth):
        c = {"cereal_class_version": 0} if rng.random() < 0.3 else {}
        if (i, p) not in laps:
            laps[(i, p)] = rng.randint(1, 9)
        c["node"] = {"hash": 1000 + i, "prefix": ev[i][0], "tid": [int(x) for x in p[1].split(",")] if isinstance(p[1], str) else [p[1]] if rng.random() < 0.7 else p[1], "pid": [4000 + p[0]], "depth": depth, "is_dummy": False,
                     "inclusive": {"entry": {"laps": laps[(i, p)], "value": 1}, "stats": stat(comp, i, p, " (inc)")}, "exclusive": {"entry": {"laps": laps[(i, p)]}, "stats": stat(comp, i, p, "")}}
        # children recorded by this thread; half of the time below a synchronisation node
        kids = [node(comp, k, p, depth + 1) for k in m.children[i] if k in rec[p]]
        if kids and rng.random() < 0.15:
            ctx.hit("sync_nodes")
            kids = [dummy(kids, depth + 1)]
        c["children"] = kids
        return c
    def dummy(kids, depth=0):
        z = {"entry": {"laps": 0}, "stats": {"sum": 0.0}}
        return {"node": {"hash": 0, "prefix": "unknown-hash=0", "tid": [0], "pid": [1], "depth": depth, "is_dummy": True, "inclusive": z, "exclusive": copy.deepcopy(z)}, "children": kids}
    def rank(comp, r):
        tops = []
        for t in threads:
            tops += [node(comp, i, (r, t), 1) for i in m.roots]
        if rng.random() < 0.3:
            rng.shuffle(tops)
        d = dummy(tops)
        k = rng.randrange(3)
        if k == 0 and len(threads) > 1:
            return [dummy([x for x in tops if x["node"]["tid"] in (t, [t]) or x["node"]["tid"] == [int(y) for y in str(t).split(",")]]) for t in threads]
        return [d] if k < 2 else d
    tree = {}
    for c in comps:
        x = {"properties": {"cereal_class_version": 0, "id": short[c]}, "type": COMPS[c], "description": "d", "unit_value": 1, "unit_repr": "sec", "thread_scope_only": False, "mpi_size": nr, "upcxx_size": 1,
             "thread_count": len(threads), "process_count": nr}
        if dmp == "graph":
            x["graph"] = [rank(c, 0)] if rng.random() < 0.5 else rank(c, 0)
            if isinstance(x["graph"], dict):
                x["graph"] = [x["graph"]]
        elif dmp == "both":
            x["mpi"] = [rank(c, r) for r in range(nr)]
            x["upcxx"] = [rank(c, nr + r) for r in range(nu)]
        else:
            if dmp != "mpi":
                x["mpi_size"] = None if rng.random() < 0.5 else 0
            x[dmp] = [rank(c, r) for r in range(nr)]
        tree[c] = x
    tree = {"timemory": tree}
    d = ctx.tmpdir()
    how = rng.choice(["dict", "dict", "stream", "file", "dir", "module"])
    ctx.hit(how + "_input"); ctx.hit("inputs")
    kw = {} if select is None else {"select": select}
    before = copy.deepcopy(tree)
    if how == "dict":
        gf = GraphFrame.from_timemory(tree, **kw)
        ctx.equal(tree, before, "timemory-input", "the caller's dictionary was changed")
    elif how == "stream":
        gf = GraphFrame.from_timemory(io.StringIO(json.dumps(tree)), **kw)
    elif how == "file":
        f = os.path.join(d, rng.choice(["wall.tree.json", "x.json"]))
        json.dump(tree, open(f, "w"))
        gf = GraphFrame.from_timemory(f, **kw)
    elif how == "dir":
        sub = os.path.join(d, rng.choice(["tm", "tm [1]"]))
        os.mkdir(sub)
        for k, c in enumerate(comps):
            with open(os.path.join(sub, "%d.tree.json" % k), "w") as fh:
                json.dump({"timemory": {c: tree["timemory"][c]}}, fh)
        open(os.path.join(sub, "other.json"), "w").write("{}")
        gf = GraphFrame.from_timemory(sub, **kw)
    else:
        mod = types.ModuleType("timemory")
        mod.get = lambda hierarchy=False: tree if hierarchy else {}
        sys.modules["timemory"] = mod
        try:
            gf = GraphFrame.from_timemory(**kw)
        finally:
            del sys.modules["timemory"]
        ctx.expect(gf is not None, "timemory-none", "nothing was returned for the running application's data")
    mr, mt = dmp != "graph", any(t != 0 for t in threads)
    ctx.hit("multi_thread", mt)
    present = set().union(*rec.values())
    mm = gen.Model()
    ren = {i: k for k, i in enumerate(sorted(present))}
    mm.frames = [m.frames[i] for i in sorted(present)]; mm.children = [[ren[c] for c in m.children[i] if c in ren] for i in sorted(present)]; mm.roots = [ren[i] for i in m.roots]
    org = sorted(present)
    levels = (["rank"] if mr else []) + (["thread"] if mt else [])
    obs.check_gf(ctx, gf, "timemory", every_node_has_rows=True)
    ctx.equal(list(gf.dataframe.index.names), ["node"] + levels, "timemory-index", "index levels")
    info = {}
    for nd, f, l, c in zip(gf.dataframe.index.get_level_values("node"), gf.dataframe["file"], gf.dataframe["line"], gf.dataframe["count"]):
        if id(nd) not in info or c != 0:
            info[id(nd)] = (f, str(l))
    to = readers.match(ctx, gf, mm, None, (lambda i: ev[org[i]][2:4], lambda nd: info.get(id(nd))))
    back = {id(x): org[i] for i, x in to.items()}
    mets = {k for w in want.values() for k in w}
    seen = set()
    for idx, row in zip(gf.dataframe.index, gf.dataframe.to_dict("records")):
        nd, key = (idx[0], tuple(x if isinstance(x, str) else int(x) for x in idx[1:])) if levels else (idx, ())
        i, p = back[id(nd)], (key[0] if mr else 0, key[-1] if mt else 0)
        ctx.expect((i, p) not in seen, "timemory-rows", "two rows of %s" % ((i, p),))
        seen.add((i, p))
        ctx.equal((row["name"], row["file"], row["type"]), (ev[i][1], ev[i][2], "region"), "timemory-text", "name, file and type of %r" % ev[i][0])
        w = want.get((i, p)) if i in rec.get(p, ()) else None
        if w is None:
            ctx.hit("absent_records")
            for c in mets:
                ctx.expect(row[c] != row[c] or row[c] == 0, "timemory-absent", "%s of %r at %s was not recorded" % (c, ev[i][0], p), got=row[c])
            continue
        ctx.equal(str(row["line"]), ev[i][3], "timemory-text", "line of %r" % ev[i][0])
        ctx.equal((int(row["count"]), int(row["pid"])), (laps[(i, p)], 4000 + p[0]), "timemory-value", "laps and process of %r at %s" % (ev[i][0], p))
        for c, v in w.items():
            ctx.equal(float(row[c]), v, "timemory-value", "%s of %r at %s" % (c, ev[i][0], p))
            ctx.hit("read_values")
    ctx.expect({(i, p) for p in rec for i in rec[p]} <= seen, "timemory-rows", "records without row")
    readers.metrics(ctx, gf, [c for c in mets if not c.endswith(" (inc)")], [c for c in mets if c.endswith(" (inc)")])
    ctx.equal(gf.default_metric in mets, True, "timemory-default", "default metric %r" % gf.default_metric)
    if n >= 4:
        ctx.nontrivial(m.shape_sig(), sorted(map(str, rec)), sorted(comps), dmp)
    ctx.sample({"regions": n, "components": comps, "distribution": dmp, "ranks": nr + nu, "threads": threads, "input": how})

SCENARIOS = [("trees", case, 2250, 7000)]
