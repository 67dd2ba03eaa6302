import os, math
from .. import gen, obs, readers
from ..cali import Cali, VALUE, NESTED, GLOBAL
from .c32 import region_tree, context, text, value, from_paths, metadata, OLD
RULE = ("time-series .cali files written from random region forests and 1-6 intervals with sparse regions, records of the start without an interval, gaps in the interval numbers, ranks, aliases, split by "
        "loop.start_iteration, timeseries.snapshot or another level; oracle = the written records of every interval; non-trivial = >=3 intervals over >=3 regions")
REQUIRED = {"files": 200, "ranked": 50, "first_interval_later": 40, "initial_records": 100, "absent_regions": 300, "without_level": 10, "intervals": 500, "native_names": 40, "reader_objects": 40, "custom_level": 20,
            "loop_columns_absent": 40, "read_values": 4000, "string_attributes": 30, "foreign_channel": 30}
METRICS = [("sum#time.duration", "double", None), ("avg#inclusive#sum#time.duration", "double", "Avg time/rank"), ("count", "uint", None), ("alloc", "int", "Allocated"), ("flag", "bool", None),
           ("sum#inclusive#sum#time.duration", "double", "Total time (inc)")]

def case(ctx, rng):
    from hatchet import GraphFrame
    import caliperreader
    c = Cali(rng)
    rm, rpaths = region_tree(rng, max_n=rng.choice([2, 5, 9]))
    defs = rng.sample(METRICS, rng.randint(1, 4))
    alias, native = rng.random() < 0.5, rng.random() < 0.3
    level = rng.choice(["loop.start_iteration", "loop.start_iteration", "timeseries.snapshot", "step"])
    ctx.hit("native_names", native); ctx.hit("custom_level", level == "step")
    ranked = rng.random() < 0.4
    nr = rng.randint(1, 3) if ranked else 1
    strs = ["tag"] if rng.random() < 0.2 else []
    channel = rng.random() < 0.3
    n_int = rng.choice([0, 1, 2, 3, 4, 6])
    first = rng.choice([0, 0, 1, 5])
    steps = [first]
    while len(steps) < n_int:
        steps.append(steps[-1] + rng.choice([1, 1, 2, 10]))
    steps = steps[:n_int]
    if len(steps) > 2 and rng.random() < 0.25:             # a second loop starts over
        k = rng.randrange(2, len(steps))
        steps = [s for s in steps[:k] + [x - steps[k] + rng.choice([0, 1]) for x in steps[k:]]]
        if all(a != b for a, b in zip(steps, steps[1:])):
            ctx.hit("restarted")
        else:
            steps = sorted(set(steps))
    initial = rng.random() < 0.7 or not steps
    loopcols = rng.random() < 0.6
    snap = level == "timeseries.snapshot" or rng.random() < 0.7
    names = {n: a if (alias and a) else n for n, t, a in defs}
    disp = lambda n: OLD.get(n, n) if native else OLD.get(names[n], names[n])
    types, frames = {}, []                       # frames: [(kind, {(path, rank): row})]
    init_regions = set()
    def write(p, r, rows, interval, idx):
        refs, v, row = [context(rng, c, p)], [], {}
        for n, t, al in defs:
            if rng.random() < 0.85:
                row[n] = value(ctx, rng, t)
                v.append((c.attr(n, t, VALUE, al if alias else None), text(t, row[n])))
        for s in strs:
            if rng.random() < 0.7:
                row[s] = rng.choice(["x", "a,b"])
                refs.append(c.node(c.attr(s), row[s]))
        if ranked:
            v.append((c.attr("mpi.rank", "int", VALUE), r))
        if interval is not None:
            v.append((c.attr(level, "int", VALUE), interval))
        if snap and level != "timeseries.snapshot":
            v.append((c.attr("timeseries.snapshot", "uint", VALUE), 0 if interval is None else idx + 1))
        if loopcols and interval is not None:
            v.append((c.attr("loop.iterations", "int", VALUE), 1 + idx))
        if channel:
            refs.append(c.node(c.attr("spot.channel"), "regionprofile"))
        rng.shuffle(v)
        c.record(refs, v)
        if channel and rng.random() < 0.2:
            ctx.hit("foreign_channel")
            c.record([context(rng, c, rng.choice(rpaths)), c.node(c.attr("spot.channel"), rng.choice(["other", "timeseries.2", "memory"]))], v)
        types.setdefault(p, "function")
        rows[(p, r)] = row
    if initial:
        rows = {}
        for p in rng.sample(rpaths, rng.randint(1, len(rpaths))):
            init_regions.add(p)
            for r in range(nr):
                write(p, r, rows, None, 0)
        frames.append((None, rows))
        ctx.hit("initial_records")
    for k, s in enumerate(steps):
        # the values of interval 0 and of the start are in one frame
        cand = [p for p in rpaths if s != 0 or k or p not in init_regions]
        if not cand:
            continue
        rows = {}
        chosen = rng.sample(cand, rng.randint(1, len(cand)))
        if rng.random() < 0.5:
            chosen.sort(key=rpaths.index)
        for p in chosen:
            some = [r for r in range(nr) if rng.random() < 0.85] or [rng.randrange(nr)]
            for r in some:
                write(p, r, rows, s, k)
        if s == 0 and k == 0 and frames:
            frames[-1][1].update(rows)
        else:
            frames.append((s, rows))
    if not frames:
        return
    meta = metadata(ctx, rng, c)
    f = os.path.join(ctx.tmpdir(), "t.cali")
    c.write(f)
    kw = {}
    if level != "loop.start_iteration" or rng.random() < 0.3:
        kw["level"] = level
    if native:
        kw["native"] = True
    if strs:
        kw["string_attributes"] = strs
        ctx.hit("string_attributes")
    src = f
    if rng.random() < 0.3:
        src = caliperreader.CaliperReader(); src.read(f)
        ctx.hit("reader_objects")
    got = GraphFrame.from_timeseries(src, **kw)
    ctx.hit("files"); ctx.hit("ranked", ranked); ctx.hit("first_interval_later", bool(steps) and first != 0 and initial); ctx.hit("without_level", not steps)
    ctx.hit("loop_columns_absent", level != "loop.start_iteration" or not loopcols); ctx.hit("intervals", len(frames))
    ctx.equal(len(got), len(frames), "series-count", "graphframes of the recorded intervals %s" % [s for s, _ in frames])
    m, at = from_paths(types)
    used = {n for _, rows in frames for row in rows.values() for n in row}
    mets = [n for n, _, _ in defs if n in used]
    aux = {x for x in ("timeseries.snapshot", "loop.iterations", "loop.start_iteration", "step")}
    cols = {disp(n) for n in mets} | {s for s in strs if s in used}
    for gf, (s, rows) in zip(got, frames):
        obs.check_gf(ctx, gf, "series", every_node_has_rows=True)
        to = readers.match(ctx, gf, m)
        here = set(gf.dataframe.columns)
        present = {disp(n) for row in rows.values() for n in row if n in mets}
        ctx.expect(present <= here, "series-columns", "columns of interval %s" % s, got=here, want=present)
        ctx.expect(here <= cols | aux | {"nid", "name", "spot.channel", "tag"}, "series-columns", "unexpected columns in interval %s" % s, got=here, want=cols)
        ctx.equal([n for n in gf.dataframe.index.names], ["node", "rank"] if ranked else ["node"], "series-levels", "index levels")
        back = {id(to[i]): p for p, i in at.items()}
        seen = set()
        for idx, row in zip(gf.dataframe.index, gf.dataframe.to_dict("records")):
            n, r = (idx[0], int(idx[1])) if ranked else (idx, 0)
            key = (back[id(n)], r)
            ctx.expect(key not in seen, "series-rows", "two rows of %s in interval %s" % (key, s))
            seen.add(key)
            ctx.equal(row["name"], key[0][-1], "series-name", "name of %s" % (key,))
            w = rows.get(key)
            for k in mets:
                d = disp(k)
                g = row.get(d, gen.NAN)
                ctx.hit("read_values")
                if w is None:
                    ctx.hit("absent_regions")
                    ctx.expect(g is None or g != g or g == 0, "series-leak", "%s of %s was not recorded in interval %s" % (d, key, s), got=g)
                elif k in w:
                    ctx.expect(g == w[k], "series-value", "%s of %s in interval %s" % (d, key, s), got=g, want=w[k])
                else:
                    ctx.expect(g is None or g != g, "series-value", "%s of %s in interval %s is not in the record" % (d, key, s), got=g)
            for k in strs:
                if w is not None and k in w:
                    ctx.equal(row.get(k), w[k], "series-string", "%s of %s in interval %s" % (k, key, s))
            if w is not None and s is not None and level in row:
                ctx.expect(row[level] == s, "series-level", "%s of %s in interval %s" % (level, key, s), got=row[level])
        ctx.expect(set(rows) <= seen, "series-rows", "recorded regions without row in interval %s" % s, got=seen, want=set(rows))
        ctx.expect(len(set(gf.exc_metrics + gf.inc_metrics)) == len(gf.exc_metrics + gf.inc_metrics), "series-metrics", "metrics are listed twice", got=gf.exc_metrics + gf.inc_metrics)
        listed = set(gf.exc_metrics) | set(gf.inc_metrics)
        ctx.equal(listed - aux, {disp(n) for n in mets if disp(n) in listed} | present, "series-metrics", "listed metrics")
        isinc = lambda n: "(inc)" in n or "inclusive" in n
        for n in mets:
            pre = n if native else names[n]
            if disp(n) in listed:
                ctx.expect(disp(n) in (gf.inc_metrics if isinc(pre) else gf.exc_metrics), "series-metrics", "kind of %s" % n)
        ctx.equal(gf.metadata, meta, "series-metadata", "metadata of interval %s" % s)
    if len(frames) >= 3 and len(m.frames) >= 3:
        ctx.nontrivial(m.shape_sig(), [sorted(r) for _, r in frames], mets, level)
    ctx.sample({"regions": len(m.frames), "intervals": [s for s, _ in frames], "level": level, "metrics": mets})

SCENARIOS = [("intervals", case, 1500, 6000)]
