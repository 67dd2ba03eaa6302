import os, marshal, cProfile, pstats, sys, types
from .. import gen, obs
from .c36 import graph, compare
RULE = ("cProfile statistics: (a) files synthesised from random call graphs (recursion, equal names and lines in different files, several roots, builtins), (b) recorded by running generated programs under cProfile, "
        "(c) recorded and written by hatchet's own Profiler (start, stop, reset, write_to_file with added files), read with from_cprofile; oracle = the synthesised statistics, pstats' own view, and the known "
        "call counts of the generated program; non-trivial = >=4 functions")
REQUIRED = {"files": 150, "several_roots": 15, "shared_callees": 25, "recursive": 20, "self_recursive_root": 5, "equal_basenames": 12, "recorded": 40, "recorded_recursion": 15, "profiler": 30, "profiler_added": 10, "profiler_existing": 10,
            "builtins": 20, "read_values": 900, "same_key": 8}

def stats_view(path):
    return pstats.Stats(path).stats

def check_stats(ctx, gf, stats):
    """The frame against the statistics as pstats sees them."""
    keys = list(stats)
    at = {k: i for i, k in enumerate(keys)}
    kids = [[] for _ in keys]
    for k, (cc, nc, tt, ct, callers) in stats.items():
        for c in callers:
            kids[at[c]].append(at[k])
    roots = [at[k] for k, v in stats.items() if all(c == k for c in v[4])]
    rows = compare(ctx, gf, len(keys), kids, roots, lambda i: keys[i], lambda nd, row: (row["file"], row["line"], row["name"]))
    for (nd, row), k in zip(rows, keys):
        cc, nc, tt, ct, _ = stats[k]
        ctx.equal(nd.frame.attrs, {"type": "function", "name": k[2]}, "cprofile-frame", "frame of %r" % (k,))
        ctx.equal((row["numcalls"], row["nativecalls"]), (nc, cc), "cprofile-calls", "calls and primitive calls of %r" % (k,))
        ctx.equal((row["time"], row["time (inc)"]), (tt, ct), "cprofile-time", "own and cumulative time of %r" % (k,))
    ctx.equal((gf.exc_metrics, gf.inc_metrics), (["time"], ["time (inc)"]), "cprofile-metrics", "metrics")
    return {k: row for (nd, row), k in zip(rows, keys)}, kids

def synth(ctx, rng):
    from hatchet import GraphFrame
    n, kids, roots = graph(ctx, rng, rng.choice([1, 4, 9, 16]))
    files = ["/home/u/pkg/__init__.py", "/home/u/pkg/sub/__init__.py", "a.py", "/x/a.py", "/y/b.py"]
    names = ["<module>", "run", "f", "<lambda>", "__init__", "<listcomp>"]
    keys = []
    for i in range(n):
        while True:
            k = ("~", 0, rng.choice(["<built-in method builtins.exec>", "<method 'append' of 'list' objects>", "<built-in method time.sleep>"])) if rng.random() < 0.12 \
                else (rng.choice(files), rng.randint(1, 3), rng.choice(names))
            if k not in keys:
                break
            k = (rng.choice(files), rng.randint(4, 400), "g%d" % i)
            break
        ctx.hit("builtins", k[0] == "~")
        ctx.hit("equal_basenames", any(k[2] == o[2] and k[1] == o[1] and os.path.basename(k[0]) == os.path.basename(o[0]) for o in keys))
        keys.append(k)
    ctx.hit("same_key", len({(k[2], os.path.basename(k[0]), k[1]) for k in keys}) < n)
    stats = {}
    order = list(range(n))
    rng.shuffle(order)
    t = lambda: gen.frac(rng, 0, 4000)
    for i in order:
        cc = rng.randint(1, rng.choice([50, 50, 2 ** 40]))
        callers = {keys[j]: (rng.randint(1, 9), rng.randint(1, 9), t(), t()) for j in range(n) if i in kids[j]}
        stats[keys[i]] = (cc, cc + (rng.randint(1, 9) if i in kids[i] else 0), t(), t(), callers)
    f = os.path.join(ctx.tmpdir(), "p.pstats")
    with open(f, "wb") as fh:
        marshal.dump(stats, fh)
    gf = GraphFrame.from_cprofile(f)
    ctx.hit("files")
    check_stats(ctx, gf, stats)
    if n >= 4:
        ctx.nontrivial(n, kids, keys)
    ctx.sample({"functions": keys, "calls": kids})

def program(ctx, rng):
    """Random program: functions calling each other (a DAG plus bounded self-recursion); returns (source, expected calls per function)."""
    n = rng.randint(1, 8)
    calls = [[(j, rng.randint(1, 2)) for j in range(i + 1, n) if rng.random() < 0.4] for i in range(n)]
    depth = [rng.choice([0, 0, 0, 1, 3]) for _ in range(n)]
    lines = []
    for i in range(n):
        # a recursive call makes no further calls
        lines.append("def f%d(d=0):\n    if d:\n        return f%d(d - 1)\n    x = 0" % (i, i))
        for j, k in calls[i]:
            lines.append("    for _ in range(%d):\n        f%d(%d)" % (k, j, depth[j]))
        lines.append("    return x")
    total, prim, edges = [0] * n, [0] * n, set()
    prim[0] = 1
    for i in range(n):
        total[i] = prim[i] * (depth[i] + 1) if i else 1 + 0
        for j, k in calls[i]:
            prim[j] += prim[i] * k
            if prim[i]:
                edges.add((i, j))
        if i and depth[i] and prim[i]:
            edges.add((i, i))
            ctx.hit("recorded_recursion")
    return "\n".join(lines), n, total, prim, edges

def check_program(ctx, gf, fname, n, total, prim, edges, times=1):
    df = gf.dataframe
    rows = {}
    for nd, row in zip(df.index, df.to_dict("records")):
        if row["file"] == fname and row["name"].startswith("f"):
            rows[row["name"]] = (nd, row)
    ctx.equal(set(rows), {"f%d" % i for i in range(n) if prim[i]}, "cprofile-program", "functions that ran")
    for i in range(n):
        if prim[i]:
            nd, row = rows["f%d" % i]
            ctx.equal((row["numcalls"], row["nativecalls"]), (total[i] * times, prim[i] * times), "cprofile-program", "calls of f%d" % i)
            ctx.equal(sorted(c.frame["name"] for c in nd.children if any(c is rows[x][0] for x in rows)), sorted("f%d" % j for a, j in edges if a == i), "cprofile-program", "callees of f%d" % i)

def load(src, fname):
    ns = {}
    exec(compile(src, fname, "exec"), ns)
    return ns["f0"]

def recorded(ctx, rng):
    from hatchet import GraphFrame
    src, n, total, prim, edges = program(ctx, rng)
    fname = os.path.join(ctx.tmpdir(), "gen%d.py" % rng.randint(0, 9))
    f0 = load(src, fname)
    p = cProfile.Profile()
    how = rng.randrange(3)
    if how == 0:
        p.runcall(f0)
    elif how == 1:
        p.enable(); f0(); p.disable()
    else:
        p.runctx("f0()", {"f0": f0}, {})
    out = os.path.join(ctx.tmpdir(), "r.pstats")
    p.dump_stats(out)
    gf = GraphFrame.from_cprofile(out)
    ctx.hit("files"); ctx.hit("recorded")
    check_stats(ctx, gf, stats_view(out))
    check_program(ctx, gf, fname, n, total, prim, edges)
    if n >= 4:
        ctx.nontrivial(n, sorted(edges), total)
    ctx.sample({"functions": n, "calls": sorted(edges), "totals": total})

def profiler(ctx, rng):
    from hatchet import GraphFrame
    from hatchet.util.profiler import Profiler
    d = ctx.tmpdir()
    old = os.getcwd()
    os.chdir(d)
    try:
        src, n, total, prim, edges = program(ctx, rng)
        fname = os.path.join(d, "gen.py")
        f0 = load(src, fname)
        p = Profiler()
        if rng.random() < 0.3:                      # an earlier measurement, discarded by reset
            p.start(); f0(); p.stop()
            for x in os.listdir(d):
                os.unlink(os.path.join(d, x))
            p.reset()
        k, kept = rng.randint(1, 6), {}
        for j in range(k):
            p.start(); f0()
            if rng.random() < 0.2:
                ctx.raises(RuntimeError, p.start, "profiler-misuse", "start while running")
                ctx.raises(RuntimeError, p.reset, "profiler-misuse", "reset while running")
            p.stop()
            for x, b in kept.items():
                ctx.expect(open(x, "rb").read() == b, "profiler-overwrite", "%s was overwritten by a later profile" % x)
            ctx.equal(len(os.listdir(d)), j + 1, "profiler-file", "profiles written by stop()")
            kept = {x: open(x, "rb").read() for x in os.listdir(d)}
        first = "hatchet-profile.pstats"
        check_program(ctx, GraphFrame.from_cprofile(first), fname, n, total, prim, edges, 1)
        target, add = "out.pstats", []
        if rng.random() < 0.4:
            open(target, "w").write("precious")
            ctx.hit("profiler_existing")
        if rng.random() < 0.4:
            add = [first]
            ctx.hit("profiler_added")
        before = set(os.listdir(d))
        p.write_to_file(target, add) if add else p.write_to_file(target)
        if target in before:
            ctx.equal(open(target).read(), "precious", "profiler-overwrite", "an existing file was overwritten")
            new = sorted(set(os.listdir(d)) - before)
            ctx.equal(len(new), 1, "profiler-file", "new files")
            target = new[0]
        for x, b in kept.items():
            ctx.expect(open(x, "rb").read() == b, "profiler-overwrite", "%s was changed" % x)
        gf = GraphFrame.from_cprofile(target)
        ctx.hit("files"); ctx.hit("profiler")
        check_stats(ctx, gf, stats_view(target))
        check_program(ctx, gf, fname, n, total, prim, edges, k + len(add))
        text = str(p)
        ctx.expect("(f0)" in text, "profiler-text", "f0 is not in the printed statistics")
        if n >= 4:
            ctx.nontrivial("profiler", n, sorted(edges), k)
        ctx.sample({"functions": n, "runs": k, "added": add})
    finally:
        os.chdir(old)

SCENARIOS = [("synthesised", synth, 1250, 4000), ("recorded", recorded, 600, 1500), ("profiler", profiler, 400, 800)]
