import glob, os, struct, time, xml.sax.saxutils as sx
import numpy as np
from .. import gen, obs, readers
RULE = ("HPCToolkit databases synthesised from random calling-context trees (PF/C/Pr/L/S nesting, recursion, unnamed inlined procedures, several roots, several files and modules) with a random "
        "metric-db file per rank and thread (ranks with differing thread counts, ranks not numbered from 0, GPU streams from 500), metric columns of several kinds; directory listings "
        "shuffled and metric reads delayed in the workers; oracle = the synthesised tree and values minus directly contained statements; non-trivial = >=4 nodes and >=2 files")
REQUIRED = {"databases": 40, "metric_files": 120, "threads": 15, "ragged_threads": 6, "gpu_streams": 4, "sparse_ranks": 8, "statements": 120, "loops": 40, "inlined": 40, "unnamed": 10,
            "statement_after_scope": 30, "read_values": 5000, "shuffled_listings": 30, "bad_endian": 2, "many_metrics": 10, "recursion": 5, "raw_metrics": 12, "over_255_elements": 3}

class X:                                            # XML element
    def __init__(self, tag, parent, **a):
        self.tag, self.parent, self.a, self.kids = tag, parent, a, []
        if parent is not None:
            parent.kids.append(self)

def make(ctx, rng):
    files = ["./src/%s.c" % x for x in "abcd"[:rng.randint(1, 4)]] + ["<unknown file>"]
    procs = rng.sample(["main", "foo", "bar<int>", "baz & co", "MPI_Send", "solve", "\"q\""], rng.randint(2, 6)) + [""]
    mods = ["prog", "/lib64/libc.so"][:rng.randint(1, 2)]
    fid = {str(10 + i): f for i, f in enumerate(files)}
    pid = {str(50 + i): p for i, p in enumerate(procs)}
    mid = {str(90 + i): p for i, p in enumerate(mods)}
    noname = str(50 + len(procs) - 1)
    pick = lambda d, no=None: rng.choice([k for k in d if k != no])
    budget = [rng.choice([4, 12, 25, 40] * 4 + [400])]
    large = budget[0] == 400
    def scope(parent, depth):
        """children of a PF, Pr or L"""
        last = None
        used = set()
        for _ in range(rng.choice([0, 1, 2, 3, 4] if not large else [2, 4, 9])):
            if budget[0] <= 0:
                return
            budget[0] -= 1
            kind = rng.choice(["C", "C", "S", "S", "S", "L", "Pr"])
            line = rng.randint(0, 30)
            if kind == "S":
                if ("S", line) in used:
                    continue
                used.add(("S", line))
                s = X("S", parent, l=line)
                if last in ("C", "L", "Pr"):
                    ctx.hit("statement_after_scope")
            elif kind == "C":
                c = X("C", parent, l=line)
                for _ in range(rng.choice([1, 1, 1, 2])):
                    pf = X("PF", c, l=rng.randint(0, 40), n=pick(pid, noname), f=pick(fid), lm=pick(mid))
                    if pf.a["n"] == getattr(parent, "a", {}).get("n"):
                        ctx.hit("recursion")
                    if depth < 7:
                        scope(pf, depth + 1)
            elif kind == "L":
                l = X("L", parent, l=line, f=pick(fid))
                if depth < 7:
                    scope(l, depth + 1)
            else:
                un = rng.random() < 0.3
                p = X("Pr", parent, l=line, n=noname if un else pick(pid, noname), f=pick(fid), lm=pick(mid), a=1)
                if depth < 7:
                    scope(p, depth + 1)
            last = kind
    top = X("TOP", None)
    names = rng.sample([k for k in pid if k != noname], rng.choice([1, 1, 2]))
    for nm in names:
        r = X("PF", top, l=rng.choice([0, 0, 5]), n=nm, f=pick(fid), lm=pick(mid))
        scope(r, 0)
        if not r.kids:
            X("S", r, l=3)
    # ids in document order, starting at 2 (1 is the experiment itself)
    n = [1]
    def number(x):
        for k in x.kids:
            n[0] += 1
            k.i = n[0]
            number(k)
    number(top)
    ctx.hit("over_255_elements", n[0] > 255)
    return top, n[0], fid, pid, mid, noname

def expected(ctx, top, fid, pid, mid, noname):
    """Model of the graph: frames, children, roots plus node attributes and the subtraction list."""
    m = gen.Model()
    attr, subs = [], []
    base = os.path.basename
    def go(x, parent, pl, file):
        """x: element; parent: model node or None; pl: line of the enclosing element"""
        t, line = x.tag, x.a["l"]
        node = None
        if t in ("PF", "Pr"):
            file = fid[x.a["f"]]
            nm = pid[x.a["n"]]
            if parent is not None and pl != 0:
                nm = "%d:%s" % (pl, nm)
            fr = {"type": "function", "name": nm}
            mod = mid[x.a["lm"]]
        elif t == "L":
            file = fid[x.a["f"]]
            nm, fr, mod = "Loop@%s:%d" % (base(file), line), {"type": "loop", "file": file, "line": line}, None
            ctx.hit("loops")
        elif t == "S":
            nm, fr, mod = "%s:%d" % (base(file), line), {"type": "statement", "file": file, "line": line}, None
            subs.append((x.i, x.parent.i))
            ctx.hit("statements")
        if t == "C" or (t == "Pr" and x.a["n"] == noname):
            node = parent
            ctx.hit("unnamed", t == "Pr")
        else:
            ctx.hit("inlined", t == "Pr")
            node = len(m.frames)
            m.frames.append(fr); m.children.append([])
            attr.append({"nid": x.i, "name": nm, "type": t, "file": file, "line": line, "module": mod})
            (m.roots if parent is None else m.children[parent]).append(node)
        for k in x.kids:
            go(k, node, line, file)
    for r in top.kids:
        go(r, None, 0, None)
    return m, attr, subs

def write(ctx, rng, d, top, num, fid, pid, mid, metrics, data, endian=b"b"):
    q = sx.quoteattr
    o = ['<?xml version="1.0"?>\n<HPCToolkitExperiment version="2.0"><Header n="x"/><SecCallPathProfile i="0" n="x"><SecHeader>']
    o.append("<MetricTable/><MetricDBTable>")
    order = list(enumerate(metrics))
    for i, name in order:
        o.append('<MetricDB i="%d" n=%s t="nil" db-glob="*.metric-db" db-id="%d" db-num-metrics="%d" db-header-sz="24"/>' % (i, q(name), i, len(metrics)))
    o.append("</MetricDBTable><LoadModuleTable>")
    o += ['<LoadModule i="%s" n=%s/>' % (k, q(v)) for k, v in mid.items()]
    o.append("</LoadModuleTable><FileTable>")
    o += ['<File i="%s" n=%s/>' % (k, q(v)) for k, v in fid.items()]
    o.append("</FileTable><ProcedureTable>")
    o += ['<Procedure i="%s" n=%s/>' % (k, q(v)) for k, v in pid.items()]
    o.append("</ProcedureTable></SecHeader><SecCallPathProfileData>")
    def el(x):
        o.append('<%s i="%d" s="%d" %s>' % (x.tag, x.i, x.i + 500, " ".join('%s="%s"' % kv for kv in x.a.items())))
        if rng.random() < 0.4:
            o.append('<M n="2" v="%g"/>' % rng.random())
        for k in x.kids:
            el(k)
        o.append("</%s>" % x.tag)
    for r in top.kids:
        el(r)
    o.append("</SecCallPathProfileData></SecCallPathProfile></HPCToolkitExperiment>")
    with open(os.path.join(d, "experiment.xml"), "w") as f:
        f.write("\n".join(o))
    for (rank, thread), a in data.items():
        with open(os.path.join(d, "1.prog-%06d-%03d-a8c00270-%d-0.metric-db" % (rank, thread, 1000 + rank)), "wb") as f:
            f.write(b"HPCPROF-metricdb__" + b"00.10" + endian + struct.pack(">ii", num, len(metrics)) + a.astype(">f8").tobytes())

def case(ctx, rng):
    from hatchet import GraphFrame
    top, num, fid, pid, mid, noname = make(ctx, rng)
    metrics = rng.choice([["CPUTIME (usec) (I)", "CPUTIME (usec) (E)"], ["CPUTIME (usec) (E)", "CPUTIME (usec) (I)"], ["CPUTIME (sec) (I)", "CPUTIME (sec) (E)", "PAPI_L1 (E)", "PAPI_L1 (I)"],
                          ["CPUTIME (sec) (E)"] + ["M%d (%s)" % (i, x) for i in range(5) for x in "IE"]])
    metrics = list(metrics)
    if rng.random() < 0.3:                          # counters without an inclusive or exclusive suffix
        ctx.hit("raw_metrics")
        for x in rng.sample(["PAPI_TOT_CYC", "REALTIME", "IO bytes"], rng.randint(1, 2)):
            metrics.insert(rng.randint(0, len(metrics)), x)
    ctx.hit("many_metrics", len(metrics) > 10)
    nr = rng.choice([1, 2, 3, 5])
    ranks = list(range(nr))
    if rng.random() < 0.3:
        ranks = sorted(rng.sample(range(0, rng.choice([40, 40, 2000])), nr))
        ctx.hit("sparse_ranks", ranks != list(range(nr)))
    style = rng.choice(["one", "one", "same", "ragged", "gpu"])
    k = rng.randint(2, 3)
    data = {}
    for r in ranks:
        ts = {"one": [0], "same": list(range(k)), "ragged": list(range(rng.randint(1, 3))), "gpu": [0] + list(range(1, rng.randint(1, 3))) + [500 + j for j in range(rng.randint(0, 2))]}[style]
        for t in ts:
            data[(r, t)] = np.array([[gen.frac(rng, 0, 4000) for _ in metrics] for _ in range(num)])
    if len({sum(1 for x in data if x[0] == r) for r in ranks}) > 1:
        ctx.hit("ragged_threads")
    ctx.hit("gpu_streams", any(t >= 500 for _, t in data))
    ctx.hit("threads", len(data) > nr)
    d = os.path.join(ctx.tmpdir(), rng.choice(["db", "db", "db", "db-000-x", "hpctoolkit [v2]", "run{*}?"]))
    os.makedirs(d)
    write(ctx, rng, d, top, num, fid, pid, mid, metrics, data)
    # perturb the order of listings and the timing of the workers
    rg, rf = glob.glob, np.fromfile
    def shuffled(*a, **k):
        r = rg(*a, **k)
        rng.shuffle(r)
        ctx.hit("shuffled_listings")
        return r
    def slow(*a, **k):
        time.sleep((os.getpid() * 7919 + hash(getattr(a[0], "name", "")) % 97) % 5 * 0.001)
        return rf(*a, **k)
    glob.glob, np.fromfile = shuffled, slow
    try:
        gf = GraphFrame.from_hpctoolkit(d)
    finally:
        glob.glob, np.fromfile = rg, rf
    ctx.hit("databases"); ctx.hit("metric_files", len(data))
    m, attr, subs = expected(ctx, top, fid, pid, mid, noname)
    levels = ["rank", "thread"] if len(data) > nr else ["rank"]
    names = [{"CPUTIME (usec) (E)": "time", "CPUTIME (sec) (E)": "time", "CPUTIME (usec) (I)": "time (inc)", "CPUTIME (sec) (I)": "time (inc)"}.get(x, x) for x in metrics]
    inc = [x for x in names if "(inc)" in x or "(I)" in x]
    exc = [x for x in names if x not in inc]
    want = {}
    for (r, t), a in data.items():
        b = a.copy()
        for s, p in subs:
            for j, x in enumerate(names):
                if x in exc:
                    b[p - 1, j] -= a[s - 1, j]
        # only leaves are subtracted, so order does not matter
        for i, at in enumerate(attr):
            row = dict(at)
            row.update(zip(names, b[at["nid"] - 1].tolist()))
            want[(i, (r, t) if len(levels) == 2 else (r,))] = row
    obs.check_gf(ctx, gf, "hpctoolkit", every_node_has_rows=True)
    nid = dict(zip(map(id, gf.dataframe.index.get_level_values("node")), gf.dataframe["nid"].tolist()))
    to = readers.match(ctx, gf, m, ident=(lambda i: attr[i]["nid"], lambda n: nid[id(n)]))
    readers.rows(ctx, gf, to, levels, want, names + ["nid", "name", "type", "file", "line", "module"])
    readers.metrics(ctx, gf, exc, inc)
    if len(m.frames) >= 4 and len(data) >= 2:
        ctx.nontrivial(m.shape_sig(), sorted(data))
    ctx.sample({"nodes": len(m.frames), "files": len(data), "metrics": names})

def endian(ctx, rng):
    from hatchet import GraphFrame
    top, num, fid, pid, mid, noname = make(ctx, rng)
    d = os.path.join(ctx.tmpdir(), "db")
    os.makedirs(d)
    write(ctx, rng, d, top, num, fid, pid, mid, ["CPUTIME (usec) (E)"], {(0, 0): np.ones((num, 1))}, b"l")
    ctx.raises(ValueError, lambda: GraphFrame.from_hpctoolkit(d), "hpctoolkit-endian", "little-endian database")
    ctx.hit("bad_endian")

SCENARIOS = [("database", case, 480, 2500), ("endian", endian, 10, 20)]
