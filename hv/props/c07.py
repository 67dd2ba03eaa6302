import os, pickle, signal, sys, time
from .. import gen, obs
from ..core import Violation
from .c06 import gen_pred
RULE = ("random graphframes filtered with 2-8 worker processes (often more workers than rows); per-row random delays permute worker completion, "
        "recorded from an append-only event log written by the workers; faults (exception, unpicklable exception, SystemExit, SIGKILL) injected at one row; frames of tens of thousands of rows, whose results do not fit into a pipe; "
        "non-trivial = >=2 workers evaluated rows")
REQUIRED = {"parallel_filters": 100, "distinct_completion_orders_seen": 1, "faults": 24, "more_workers_than_rows": 10, "multi_worker_runs": 60, "large": 4}
ASSUMPTIONS = ["a worker may be killed only while it evaluates the predicate"]

def log(path, *rec):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (" ".join(map(str, rec)) + "\n").encode()); os.close(fd)

def read_log(path):
    if not os.path.exists(path):
        return []
    return [l.split() for l in open(path).read().splitlines()]

def schedule(ctx, rng):
    from hatchet.graphframe import EmptyFilter
    squash = rng.random() < 0.4
    kind = rng.choice(["tree", "forest"]) if squash else None     # (squashing a DAG may merge call paths into a cycle)
    m, gf, nodes = gen.gen_gf(rng, max_n=rng.choice([1, 3, 8, 12]), unique=True, kind=kind)
    desc, pred, mp = gen_pred(rng, m)
    procs = rng.choice([2, 3, 4, 5, 8, len(m.rows), len(m.rows) + 3])
    procs = max(2, min(procs, 12))
    nid = {id(n): i for i, n in enumerate(nodes)}
    path = os.path.join(ctx.tmpdir(), "log")
    if rng.random() < 0.5:      # later rows finish first / random
        delays = {k: rng.choice([0, 0, 0.002, 0.01, 0.03]) for k in m.rows}
    else:
        delays = {k: 0.03 * (1 - i / len(m.rows)) for i, k in enumerate(sorted(m.rows))}
    def slow(r):
        idx = tuple(r[l] for l in m.levels)
        time.sleep(delays.get((r["nid"], idx), 0))
        v = pred(r)
        log(path, os.getpid(), r["nid"], *idx)
        return v
    want = {k: r for k, r in m.rows.items() if mp(k[0], k[1], r)}
    before = obs.snap(gf)
    err = None
    try:
        f = gf.filter(slow, squash=squash, num_procs=procs)
    except EmptyFilter as e:
        err = e
    ctx.hit("parallel_filters")
    if procs > len(m.rows):
        ctx.hit("more_workers_than_rows")
    obs.expect_unchanged(ctx, before, gf, "parallel-mutates", desc)
    ev = read_log(path)
    ctx.hit("row_events", len(ev))
    seen = sorted((int(e[1]), tuple(map(int, e[2:]))) for e in ev)
    ctx.equal(seen, sorted(m.rows), "rows-evaluated", "each row is evaluated exactly once over all workers")
    last = {}
    for i, e in enumerate(ev):
        last[e[0]] = i
    order = sorted(last, key=lambda p: last[p])
    started = list(dict.fromkeys(e[0] for e in ev))
    first = {p: i for i, p in enumerate(sorted(last, key=int))}
    perm = tuple(first[p] for p in order)
    if len(last) > 1:
        ctx.hit("multi_worker_runs")
        ctx.nontrivial(len(last), perm, m.shape_sig(), desc)
        if perm != tuple(sorted(perm)):
            ctx.hit("distinct_completion_orders_seen")
    if not want:
        ctx.expect(err is not None, "parallel-empty", "no row satisfies the predicate, but no empty-filter error: %s" % desc)
        return
    ctx.expect(err is None, "parallel-empty", "empty-filter error although rows match: %s" % desc)
    if not squash:
        got = obs.rows_by(f, lambda n: nid.get(id(n), "foreign node"))
        ctx.equal(got, want, "parallel-rows", "%d workers, completion order %s, %s" % (procs, perm, desc))
        ctx.expect(f.graph is gf.graph, "parallel-graph", "graph replaced")
        s = gf.filter(pred, squash=False, num_procs=1)
        ctx.equal([(id(t[0]) if isinstance(t, tuple) else id(t), t[1:] if isinstance(t, tuple) else ()) for t in f.dataframe.index.tolist()],
                  [(id(t[0]) if isinstance(t, tuple) else id(t), t[1:] if isinstance(t, tuple) else ()) for t in s.dataframe.index.tolist()],
                  "parallel-row-order", "rows come in the order of the sequential filter")
    else:
        s = gf.filter(pred, squash=True, num_procs=1)
        ctx.equal(obs.canon(f.graph), obs.canon(s.graph), "parallel-squash", desc)
        ctx.equal(obs.rows_by_path(f), obs.rows_by_path(s), "parallel-squash", desc)
    ctx.sample({"workers": procs, "rows": len(m.rows), "completion_order": perm, "predicate": desc})

class Unpicklable(Exception):
    def __init__(self):
        Exception.__init__(self, "x")
        self.f = open(os.devnull)

def stat(pid):
    try:
        s = open("/proc/%d/stat" % pid).read()
    except OSError:
        return None
    r = s[s.rindex(")") + 2:].split()
    return r[0], int(r[1]), int(r[11]) + int(r[12])       # state, ppid, cpu ticks

def kids(pid):
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            st = stat(int(d))
            if st and st[1] == pid:
                out.append((int(d), st[0]))
    return out

def sleeping_all(child):
    """Does every process below child sleep without having used the CPU since?  (state, cpu) of each."""
    todo, seen = [child], {}
    while todo:
        p = todo.pop()
        st = stat(p)
        if st and st[0] != "Z":
            seen[p] = (st[0], st[2])
            todo += [k for k, _ in kids(p)]
    return seen

def large(ctx, rng):
    """More rows than fit into a pipe; the caller and its workers all asleep for long is a deadlock."""
    from hatchet import GraphFrame
    import pandas as pd
    n, ranks, procs = rng.choice([2, 3, 5]), rng.choice([9000, 16000]), rng.choice([2, 2, 3])
    m, gf, nodes = gen.gen_gf(rng, n=n, kind="tree", unique=True, levels=(), exc=("time",), inc=(), nanp=0)
    gf = GraphFrame(gf.graph, pd.DataFrame([{"node": x, "rank": r, "name": x.frame["name"], "time": float((i * 7 + r) % 10)} for i, x in enumerate(nodes) for r in range(ranks)]).set_index(["node", "rank"]), ["time"], [])
    cut = rng.choice([0, 0, 1, 5])
    out = os.path.join(ctx.tmpdir(), "out")
    child = os.fork()
    if child == 0:
        signal.setitimer(signal.ITIMER_PROF, 0)
        try:
            os.setpgid(0, 0)
            try:
                f = gf.filter(lambda r: r["time"] >= cut, squash=False, num_procs=procs)
                nid = {id(x): i for i, x in enumerate(nodes)}
                res = ("returned", [(nid.get(id(t[0])), t[1]) for t in f.dataframe.index.tolist()], f.dataframe["time"].tolist())
            except Exception as e:
                res = ("raised", type(e).__name__, str(e)[:300])
            with open(out + ".tmp", "wb") as fh:
                pickle.dump(res, fh)
            os.rename(out + ".tmp", out)
        finally:
            os._exit(0)
    quiet, last, verdict, t0 = 0, None, None, time.time()
    while True:
        pid, _ = os.waitpid(child, os.WNOHANG)
        if pid or os.path.exists(out):
            break
        now = sleeping_all(child)
        quiet = quiet + 1 if now == last and all(s == "S" for s, _ in now.values()) else 0
        last = now
        if quiet >= 80:
            verdict = "hang"
            break
        if time.time() - t0 > 240:
            verdict = "inconclusive"
            break
        time.sleep(0.25)
    try:
        os.killpg(child, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.waitpid(child, 0)
    except OSError:
        pass
    if verdict == "inconclusive":
        ctx.hit("inconclusive_large")
        return
    ctx.expect(verdict != "hang", "large-hang", "%d rows, %d workers: caller and workers all wait for each other" % (n * ranks, procs))
    ctx.expect(os.path.exists(out), "large-crash", "the filter call ended without result or error")
    res = pickle.load(open(out, "rb"))
    ctx.expect(res[0] == "returned", "large-fails", "%d rows, %d workers: %s" % (n * ranks, procs, res[1:]))
    want = [((i, r), float((i * 7 + r) % 10)) for i in range(n) for r in range(ranks) if (i * 7 + r) % 10 >= cut]
    ctx.expect(list(zip(res[1], res[2])) == want, "large-rows", "%d rows kept of %d expected, or others" % (len(res[1]), len(want)))
    ctx.hit("large"); ctx.hit("large_rows", n * ranks)
    ctx.nontrivial("large", n, ranks, procs, cut)

def fault(ctx, rng):
    m, gf, nodes = gen.gen_gf(rng, n=rng.randint(3, 10), unique=True, levels=())
    procs = rng.choice([2, 3, 4, 8])
    kind = rng.choice(["raise", "raise", "keyerror", "unpicklable", "exit0", "exit3", "kill"])
    bad = rng.randrange(len(nodes))
    path = os.path.join(ctx.tmpdir(), "log")
    out = os.path.join(ctx.tmpdir(), "out")
    delays = {i: rng.choice([0, 0, 0.01, 0.03]) for i in range(len(nodes))}
    def pred(r):
        time.sleep(delays[r["nid"]])
        if r["nid"] == bad:
            log(path, os.getpid(), kind)
            if kind == "raise":
                raise ValueError("injected")
            if kind == "keyerror":
                return r["no such column"] > 1
            if kind == "unpicklable":
                raise Unpicklable()
            if kind == "exit0":
                sys.exit(0)
            if kind == "exit3":
                os._exit(3)
            os.kill(os.getpid(), signal.SIGKILL)
        return True
    child = os.fork()
    if child == 0:
        signal.setitimer(signal.ITIMER_PROF, 0)
        try:
            os.setpgid(0, 0)
            try:
                f = gf.filter(pred, squash=rng.random() < 0.5, num_procs=procs)
                res = ("returned", f.dataframe.shape[0])
            except Exception as e:
                res = ("raised", type(e).__name__, str(e)[:300])
            with open(out + ".tmp", "wb") as fh:
                pickle.dump(res, fh)
            os.rename(out + ".tmp", out)
        finally:
            os._exit(0)
    quiet, lastcpu, verdict, t0 = 0, None, None, time.time()
    while True:
        pid, _ = os.waitpid(child, os.WNOHANG)
        if pid or os.path.exists(out):
            break
        live = [k for k, s in kids(child) if s != "Z"]
        st = stat(child)
        # deadlock: every worker is gone and the caller sleeps without using the CPU
        if st and not live and st[0] == "S" and (lastcpu is None or st[2] <= lastcpu + 1) and read_log(path):
            quiet += 1
        else:
            quiet = 0
        lastcpu = st[2] if st and quiet <= 1 else lastcpu
        if quiet >= 60:
            verdict = "hang"
            break
        if time.time() - t0 > 120:
            verdict = "inconclusive"
            break
        time.sleep(0.02 if not quiet else 0.25)
    try:
        os.killpg(child, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.waitpid(child, 0)
    except OSError:
        pass
    if verdict == "inconclusive":
        ctx.hit("inconclusive_faults")
        return
    ctx.expect(read_log(path), "fault-not-reached", "the injected fault was never reached")
    ctx.hit("faults"); ctx.hit("fault:" + kind)
    ctx.nontrivial("fault", kind, procs, bad, len(nodes))
    ctx.expect(verdict != "hang", "fault-hang", "worker fault %r: all workers are gone and the filter call still waits" % kind)
    ctx.expect(os.path.exists(out), "fault-crash", "worker fault %r: filter call ended without result or error" % kind)
    res = pickle.load(open(out, "rb"))
    ctx.expect(res[0] == "raised", "fault-partial", "worker fault %r: the filter returned %s rows instead of failing" % (kind, res[1]))

SCENARIOS = [("schedule", schedule, 240, 3000), ("fault", fault, 48, 800), ("large", large, 8, 60)]
