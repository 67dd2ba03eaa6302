"""Running one case in several interpreters and recording everything the library answers (C41).

A recorder wraps the public entry points of the library; each call's result is written down in
the order in which a user would see it.  Child interpreters repeat the case under another string
hash seed, another allocator, a scattered heap and another order of directory listings."""
import functools, glob, importlib, json, os, random, re, subprocess, sys

from . import core

LOG = None          # list while a case is being recorded
DEPTH = [0]

# ------------------------------------------------------------------ what a user sees
def text(x, ctx_dir=None):
    t = x if isinstance(x, str) else repr(x)
    return re.sub(r"(/tmp/)?hv-C\d+-\w+|/tmp/tmp\w+|0x[0-9a-f]{6,}", "<tmp>", t)

def cell(v):
    import numpy as np
    if hasattr(v, "frame"):
        return "node %d" % v._hatchet_nid
    if isinstance(v, (float, np.floating)):
        return "nan" if v != v else "%r" % float(v)
    if isinstance(v, (np.integer,)):
        return repr(int(v))
    if isinstance(v, (set, frozenset)):
        return "set " + repr(sorted(map(repr, v)))
    return repr(v)

def graph(g):
    out, n = [], 0
    for x in (g.node_order_traverse() if g.node_ordering else g.traverse()):
        out.append("%d@%d %s <%s" % (x._hatchet_nid, x._depth, sorted(x.frame.attrs.items(), key=lambda kv: kv[0]), sorted(p._hatchet_nid for p in x.parents)))
        n += 1
        if n > 3000:
            break
    return ["graph of %s" % type(g).__name__] + out

def frame(gf):
    df = gf.dataframe
    out = graph(gf.graph)
    out.append("index %s columns %s exc %s inc %s default %r metadata %s" % (list(df.index.names), [str(c) for c in df.columns], list(gf.exc_metrics), list(gf.inc_metrics), gf.default_metric, list(gf.metadata.items())))
    out.append("dtypes %s" % [str(t) for t in df.dtypes])
    for ix, row in zip(df.index.tolist(), df.itertuples(index=False, name=None)):
        ix = ix if isinstance(ix, tuple) else (ix,)
        out.append("%s: %s" % (" ".join(map(cell, ix)), " | ".join(map(cell, row))))
    return out

def show(x):
    import pandas as pd
    from hatchet.graph import Graph
    from hatchet.graphframe import GraphFrame
    from hatchet.node import Node
    if isinstance(x, GraphFrame):
        return frame(x)
    if isinstance(x, Graph):
        return graph(x)
    if isinstance(x, Node):
        return ["node %d %r" % (x._hatchet_nid, x)]
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return ["table %s" % (x.shape,)]
    if isinstance(x, (list, tuple)):
        return ["%s of %d" % (type(x).__name__, len(x))] + [l for y in x[:500] for l in show(y)]
    if isinstance(x, dict):
        return ["dict"] + ["%s = %s" % (k if isinstance(k, str) else cell(k), l) for k, v in x.items() for l in show(v)]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(l for y in x for l in show(y))
    return [cell(x)]

# ------------------------------------------------------------------ recorder
def wrap(cls, name):
    raw = cls.__dict__[name]
    f = raw.__func__ if isinstance(raw, (classmethod, staticmethod)) else raw
    label = "%s.%s" % (cls.__name__, name)
    @functools.wraps(f)
    def g(*a, **k):
        if LOG is None or DEPTH[0]:
            return f(*a, **k)
        DEPTH[0] += 1
        try:
            try:
                r = f(*a, **k)
            except Exception as e:
                LOG.append((label, "raised %s" % type(e).__name__))
                raise
            try:
                lines = show(a[0] if r is None and a and not isinstance(raw, (classmethod, staticmethod)) else r)
            except RecursionError:
                lines = ["too deep to show"]
            LOG.append((label, text("\n".join(lines))))
            return r
        finally:
            DEPTH[0] -= 1
    setattr(cls, name, type(raw)(g) if isinstance(raw, (classmethod, staticmethod)) else g)

def public(cls):
    return [n for n, v in vars(cls).items() if not n.startswith("_") or n in ("__add__", "__sub__", "__mul__", "__truediv__", "__iadd__", "__isub__", "__imul__", "__itruediv__")]

METHODS = {"graphframe.GraphFrame": None, "graph.Graph": ["union", "copy", "find_merges", "enumerate_traverse"], "query.engine.QueryEngine": ["apply"]}

def install():
    import hatchet
    from hatchet import graphframe, graph
    for path, names in METHODS.items():
        mod, cls = path.rsplit(".", 1)
        try:
            cls = getattr(importlib.import_module("hatchet." + mod), cls)
        except (ImportError, AttributeError):
            continue
        for n in names if names is not None else public(cls):
            v = cls.__dict__.get(n)
            if n in ("find_merges",) or not (callable(v) or isinstance(v, (classmethod, staticmethod))):
                continue
            wrap(cls, n)

# ------------------------------------------------------------------ one case
def record(mod, scen, seed, idx):
    """(log, outcome) of one case of another property's workload."""
    global LOG
    m = importlib.import_module("hv.props." + mod)
    fn = dict((s[0], s[1]) for s in m.SCENARIOS + getattr(m, "HIDDEN", []))[scen]
    ctx = core.Ctx(mod.upper(), seed, "quick")
    LOG = []
    DEPTH[0] = 0
    try:
        rec = core.run_case(ctx, scen, fn, idx)
    finally:
        log, LOG = LOG, None
    return log, ("skipped" if ctx.counters["skipped"] else "ran") if rec is None else rec["key"]

# ------------------------------------------------------------------ the children
def scatter(rng, keep):
    """Leave holes all over the heap, so that object addresses no longer follow creation order."""
    keep.clear()
    junk = [bytearray(rng.randrange(40, 600)) if rng.random() < 0.3 else type("J", (), {})() if rng.random() < 0.01 else [None] * rng.randrange(1, 60) if rng.random() < 0.5 else {} for _ in range(4000)]
    objs = [_O() for _ in range(4000)]
    rng.shuffle(objs)
    keep.extend(objs[:1500])
    keep.extend(rng.sample(junk, 1200))

class _O:
    def __init__(self):
        self.a = self.b = None; self.c, self.d = [], []

def shuffled(f, rng):
    @functools.wraps(f)
    def g(*a, **k):
        r = list(f(*a, **k))
        rng.shuffle(r)
        return r
    return g

class Listing:
    """os.scandir in another order."""
    def __init__(self, it, rng):
        with it:
            self.it = list(it)
        rng.shuffle(self.it)
        self.it = iter(self.it)
    def __iter__(self):
        return self
    def __next__(self):
        return next(self.it)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    def close(self):
        pass

def child():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter("ignore")
    cpus = int(os.environ["HV_CPUS"])       # the number of processors decides how work is split up
    os.cpu_count = lambda: cpus
    from . import build
    build.build()
    rng = random.Random(os.environ["HV_DET"])
    os.listdir, glob.glob = shuffled(os.listdir, rng), shuffled(glob.glob, rng)
    real = os.scandir
    os.scandir = lambda *a: Listing(real(*a), rng)
    install()
    keep = []
    for line in sys.stdin:
        q, before = json.loads(line)
        scatter(rng, keep)
        try:
            if before:                      # something else, whose results do not matter
                record(*before)
            a = record(*q)
        except BaseException as e:
            a = ([], "failed: %r" % e)
        out.write(json.dumps(a) + "\n")
        out.flush()

class Peer:
    def __init__(self, hashseed, malloc):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), HV_DET=str(hashseed), HV_CPUS="5" if malloc else "1")
        if malloc:
            env["PYTHONMALLOC"] = "malloc"
        self.name = "PYTHONHASHSEED=%s, %s" % (hashseed, "PYTHONMALLOC=malloc, 5 processors" if malloc else "1 processor")
        self.p = subprocess.Popen([sys.executable, "-c", "from hv.det import child; child()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    def ask(self, q, before=None):
        self.p.stdin.write(json.dumps([q, before]) + "\n")
        self.p.stdin.flush()
    def answer(self):
        l = self.p.stdout.readline()
        if not l:
            raise core.Inconclusive("an interpreter of the comparison died")
        log, outcome = json.loads(l)
        return [tuple(x) for x in log], outcome

PEERS = []

def peers(seed):
    if not PEERS:
        install()
        PEERS.extend([Peer(101 + 17 * seed, False), Peer(4242 + seed, True)])
    return PEERS
