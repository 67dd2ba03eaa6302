import inspect
import numpy as np
from .. import gen, obs
from ..core import Skip
from . import c14, c15, c30
RULE = ("whole process under AddressSanitizer and UndefinedBehaviorSanitizer with both extensions rebuilt for them (-fsanitize=address,undefined, python allocating through malloc so every array is its own red-zoned block): "
        "(1) helpers called directly on exact-size buffers in C, Fortran and strided layouts, tables empty, with duplicates, equal, disjoint and with extreme ids, results against plain set membership, marking and subtraction, "
        "neighbouring memory of strided views checked; (2) unify, arithmetic and HPCToolkit reads of random inputs, up to thousands of rows, with their own oracles; non-trivial = helper input with >=2 rows")
REQUIRED = {"isin_tables": 700, "isin_empty": 60, "isin_duplicates": 200, "isin_extreme": 100, "isin_answers": 5000, "marks": 350, "marks_none": 20, "marked_cells": 2000, "subtractions": 350, "subtracted_cells": 1500,
            "strided": 250, "neighbours": 5000, "package_unify": 60, "package_arith": 60, "package_hpct": 6, "big_unify": 4, "native_calls": 200}
ASSUMPTIONS = ["red-zone instrumentation sees accesses next to a block and undefined operations, not jumps into other live blocks"]

def mods():
    from hatchet.cython_modules.libs import graphframe_modules as g, reader_modules as r
    return g, r

def call(fn, *a):
    """A helper whose parameters were rearranged is only driven through the package."""
    try:
        return fn(*a)
    except TypeError as e:
        raise Skip(str(e))

def heap(a, order="C"):
    """A copy that owns an exact-size block."""
    return np.array(a, order=order, copy=True)

def table(ctx, rng, pool, n):
    ids = sorted(rng.choice(pool) for _ in range(n))
    idx = list(range(n))
    rng.shuffle(idx)
    t = np.empty((n, 2), dtype=np.uint64)
    t[:, 0] = ids
    t[:, 1] = idx
    return t, ids, idx

def layout(ctx, rng, t):
    k = rng.choice(["C", "F", "T", "strided", "reversed"])
    if k == "C":
        return heap(t), None
    if k == "F":
        return heap(t, "F"), None
    if k == "T":
        return heap(np.ascontiguousarray(t.T)).T, None
    ctx.hit("strided")
    if k == "reversed":
        b = heap(t[::-1])
        return b[::-1], None
    s = rng.randint(2, 4)
    b = np.full((t.shape[0] * s + 1, 5), 77, dtype=t.dtype)
    v = b[1::s, 1:4:2][:t.shape[0]]
    v[...] = t
    return v, b

def notisin(ctx, rng):
    g, _ = mods()
    n1, n2 = [rng.choice([0, 1, 2, 3, 7, 8, 33]) for _ in range(2)]
    if rng.random() < 0.6 and n1 == 0:
        n1 = 5
    style = rng.choice(["small", "small", "wide", "extreme", "nid"])
    pool = {"small": range(6), "wide": range(10 ** 6), "extreme": [0, 1, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 2, 2 ** 64 - 1], "nid": range(max(1, n1 + n2))}[style]
    t1, i1, x1 = table(ctx, rng, pool, n1)
    t2, i2, x2 = table(ctx, rng, pool, n2)
    if rng.random() < 0.2:
        t2, i2, n2 = t1.copy(), list(i1), n1
    a, ab = layout(ctx, rng, t1)
    b, bb = layout(ctx, rng, t2)
    sa, sb = [None if x is None else x.copy() for x in (ab if ab is not None else a, bb if bb is not None else b)]
    r = call(g.fast_not_isin, a, b, n1, n2)
    ctx.hit("isin_tables"); ctx.hit("isin_empty", n1 == 0 or n2 == 0); ctx.hit("isin_duplicates", len(set(i1)) < n1); ctx.hit("isin_extreme", style == "extreme")
    ctx.equal(len(r), n1, "isin-length", "answers")
    s = set(i2)
    for key, x in zip(i1, x1):
        ctx.hit("isin_answers")
        ctx.equal(bool(r[x]), key not in s, "isin-answer", "is %d missing from the second table" % key, first=i1, second=i2)
    for o, x in ((sa, ab if ab is not None else a), (sb, bb if bb is not None else b)):
        ctx.hit("neighbours", x.size)
        ctx.expect((o == x).all(), "isin-writes", "an input table was changed")
    if n1 > 1:
        ctx.nontrivial("isin", i1, i2)
    ctx.sample({"helper": "fast_not_isin", "rows": [n1, n2], "style": style})

def marks(ctx, rng):
    g, _ = mods()
    n = rng.choice([1, 2, 5, 8, 31, 200])
    k = rng.choice([0, 1, n, rng.randint(0, n), rng.randint(0, n)])
    idx = sorted(rng.sample(range(n), k))
    if rng.random() < 0.2:
        rng.shuffle(idx)
    ctx.hit("marks"); ctx.hit("marks_none", k == 0)
    s = rng.choice([1, 1, 2, 3])
    buf = heap(np.full(n * s, 9, dtype=np.short))
    m = buf[s - 1::s] if s > 1 else buf
    m[...] = 0
    ctx.hit("strided", s > 1)
    if rng.random() < 0.3 and n > 1:
        m[rng.randrange(n)] = 2
    want = buf.copy()
    for i in idx:
        want[(s - 1) + i * s if s > 1 else i] = 1
    ix = heap(np.array(idx, dtype=np.int64))
    call(g.insert_one_for_self_nodes, k, m, ix)
    ctx.hit("marked_cells", k); ctx.hit("neighbours", n * s)
    ctx.equal(buf.tolist(), want.tolist(), "mark-cells", "marked cells, indices %s of %d" % (idx, n))
    ctx.equal(ix.tolist(), idx, "mark-writes", "index array")
    if k > 1:
        ctx.nontrivial("mark", n, idx)

def subtract(ctx, rng):
    _, r = mods()
    nodes, files, cols = rng.randint(2, 12), rng.randint(1, 6), rng.randint(1, 4)
    a = heap(np.array([[rng.randint(0, 99) * 0.5 for _ in range(cols)] for _ in range(nodes * files)]))
    want = a.copy()
    nid, pid = rng.sample(range(1, nodes + 1), 2)
    if rng.random() < 0.3:
        nid, pid = rng.choice([(nodes, 1), (1, nodes), (nodes, nodes - 1)])
    c = rng.randrange(cols)
    for f in range(files):
        want[pid - 1 + f * nodes, c] -= a[nid - 1 + f * nodes, c]
    call(r.subtract_exclusive_metric_vals, nid, pid, a.T[c], files, nodes)
    ctx.hit("subtractions"); ctx.hit("subtracted_cells", files); ctx.hit("neighbours", a.size); ctx.hit("strided", cols > 1)
    ctx.equal(a.tolist(), want.tolist(), "subtract-cells", "metrics after subtracting node %d from %d in %d files" % (nid, pid, files))
    ctx.nontrivial("sub", nodes, files, cols, nid, pid, c)

class Counted:
    """Counts the package's calls into the extensions."""
    def __init__(self, ctx):
        self.ctx = ctx
    def __enter__(self):
        self.old = []
        for m in mods():
            for n in dir(m):
                f = getattr(m, n)
                if callable(f) and not n.startswith("_") and not inspect.ismodule(f) and "cython_function" in type(f).__name__ + type(f).__module__ or type(f).__name__ == "builtin_function_or_method" and getattr(f, "__module__", "") == m.__name__:
                    self.old.append((m, n, f))
                    setattr(m, n, self.wrap(f))
    def wrap(self, f):
        def go(*a, **k):
            self.ctx.hit("native_calls")
            return f(*a, **k)
        return go
    def __exit__(self, *e):
        for m, n, f in self.old:
            setattr(m, n, f)

def through(fn, name):
    def case(ctx, rng):
        with Counted(ctx):
            fn(ctx, rng)
        ctx.hit(name)
    return case

def big(ctx, rng):
    """Thousands of rows, on several ranks."""
    ga = gen.gen_graph(rng, kind="tree", max_n=rng.choice([150, 400]), unique=True, names=["f%d" % i for i in range(400)])
    gb = c14.prune(ga, rng)
    if rng.random() < 0.5:
        ga, gb = gb, ga
    levels = rng.choice([("rank",), ("rank",), ()])
    for m in (ga, gb):
        gen.gen_rows(rng, m, levels=levels, exc=["time"], inc=[], nanp=0)
    with Counted(ctx):
        g1, n1 = gen.build(ga)
        g2, n2 = gen.build(gb)
        l1, l2 = len(g1.dataframe), len(g2.dataframe)
        pa, pb = [{k[0] for k in obs.model_rows_by_path(m)} for m in (ga, gb)]
        g1.unify(g2)
    rows = obs.rows_by_path(g1)
    ctx.hit("big_unify")
    add = sum(1 for k in obs.rows_by_path(g2) if k[0] not in pa)
    ctx.equal(len(g1.dataframe), l1 + add, "unify-rows", "rows of the unified frame")
    if pa != pb:
        for k, row in rows.items():
            ctx.equal(row["_missing_node"], 0 if k[0] in pa and k[0] in pb else 1 if k[0] in pa else 2, "unify-mark", "mark of %s" % (k,))
    ctx.nontrivial("big", l1, l2)

SCENARIOS = [("not_isin", notisin, 3000, 60000), ("marks", marks, 1600, 20000), ("subtract", subtract, 1600, 20000), ("unify", through(c15.case, "package_unify"), 150, 4000),
             ("arith", through(c14.case, "package_arith"), 150, 4000), ("hpctoolkit", through(c30.case, "package_hpct"), 16, 300), ("big", big, 16, 150)]
