"""Profile models (plain Python data), seeded generators, and construction of real
hatchet objects from them through the public constructors."""
import itertools, math
import numpy as np
import pandas as pd

NAMES = ["main", "foo", "bar", "baz", "qux", "grault", "garply", "waldo", "fred", "plugh", "xyzzy", "thud",
         "corge", "MPI_Send", "MPI_Recv", "hypre_Solve", "a", "b", "c", "d", "e", "f", "g", "Zeta", "_init",
         "operator()", "std::vector<int>", "k 1", "k-2", "lambda"]
NAN = float("nan")

BIG = 0.02
INTS = 0.08
FINE = 0.15
ORDERED = float(__import__("os").environ.get("HV_ORD", "0.05"))

class Model:
    """frames[i]: attr dict; children[i]: list of node numbers; roots: list of node numbers."""
    def __init__(self):
        self.frames, self.children, self.roots = [], [], []
        self.levels = ()            # extra index levels besides node
        self.rows = {}              # (node, idx tuple) -> {column: value}
        self.columns = []
        self.exc, self.inc = [], []
        self.default_metric = "time"
        self.metadata = {}
        self.node_order = False
        self.int_cols = []          # metrics stored as integers, if their values allow

    def parents(self):
        p = [[] for _ in self.frames]
        for i, cs in enumerate(self.children):
            for c in cs:
                p[c].append(i)
        return p

    def key(self, i):
        return fkey(self.frames[i])

    def desc(self, i):
        """Distinct descendants including i, any order."""
        seen, st = {i}, [i]
        while st:
            for c in self.children[st.pop()]:
                if c not in seen:
                    seen.add(c); st.append(c)
        return seen

    def paths(self):
        """node -> set of root-to-node frame-key paths."""
        out = {}
        def go(i, p):
            p = p + (self.key(i),)
            out.setdefault(i, set()).add(p)
            for c in self.children[i]:
                go(c, p)
        for r in self.roots:
            go(r, ())
        return out

    def spec(self):
        return {"frames": self.frames, "children": self.children, "roots": self.roots, "levels": self.levels,
                "rows": [[k[0], list(k[1]), v] for k, v in self.rows.items()], "exc": self.exc, "inc": self.inc}

    def shape_sig(self):
        return (tuple(self.key(i) for i in range(len(self.frames))), tuple(map(tuple, self.children)), tuple(self.roots))

def fkey(attrs):
    a = dict(attrs)
    a.setdefault("type", "None")
    return tuple(sorted(a.items(), key=lambda kv: kv[0]))

# ---------------------------------------------------------------- graphs
def gen_graph(rng, n=None, kind=None, unique=True, names=None, rich=False, max_n=14, max_paths=400):
    """kind: tree | forest | dag | dagforest.  unique: siblings (and roots) have distinct frames."""
    kind = kind or rng.choice(["tree", "tree", "forest", "dag", "dagforest"])
    # now and then a graph far larger than usual: long chains, wide nodes
    big = BIG * (n is None and max_n >= 8) > rng.random()
    for attempt in range(100):
        m = Model()
        N = n or rng.randint(1, max_n)
        if big and attempt < 20:
            hi = min(max(120, max_n), max_paths) if kind in ("tree", "forest") else 2 * max_n + 8
            N = rng.randint(min(2 * max_n, hi), hi)
        pool = names or rng.sample(NAMES, rng.choice([2, 3, 5, 8, len(NAMES)]))
        nroots = 1 if kind in ("tree", "dag") else rng.randint(1 if N < 2 else 2, max(1, min(4, N)))
        style = rng.choice(["bushy", "deep", "mixed", "mixed"] + (["chain", "wide"] if big else []))
        used = {}           # parent -> set of frame keys
        def fresh(parents):
            for _ in range(30):
                fr = gen_frame(rng, pool, rich)
                k = fkey(fr)
                if not unique or all(k not in used.get(p, ()) for p in parents):
                    return fr
            i = 0
            while True:                      # pool exhausted: number the name
                fr = {"name": "%s_%d" % (rng.choice(pool), i), "type": "function"}
                if all(fkey(fr) not in used.get(p, ()) for p in parents):
                    return fr
                i += 1
        for i in range(N):
            if i < nroots:
                ps = [-1]
            else:
                def pick():
                    if style == "chain":
                        return i - 1
                    if style == "wide":
                        return rng.choice([0, 0, 0, min(i - 1, 7)])
                    if style == "deep":
                        return i - 1 - min(i - 1, int(rng.expovariate(1.2)))
                    if style == "bushy":
                        return rng.randint(0, min(i - 1, 3))
                    return rng.randint(0, i - 1)
                ps = [pick()]
                if kind.startswith("dag"):
                    for _ in range(rng.choice([0, 0, 1, 1, 2])):
                        q = pick()
                        if q not in ps:
                            ps.append(q)
            fr = fresh(ps)
            m.frames.append(fr); m.children.append([])
            for p in ps:
                used.setdefault(p, set()).add(fkey(fr))
                if p == -1:
                    m.roots.append(i)
                else:
                    m.children[p].append(i)
        for cs in m.children:
            rng.shuffle(cs)
        rng.shuffle(m.roots)
        # bound the number of root paths
        cnt = [0] * N
        for r in m.roots:
            cnt[r] += 1
        for i in range(N):
            for c in m.children[i]:
                cnt[c] += cnt[i]
        if sum(cnt) <= max_paths * (2 if big and attempt < 20 else 1):
            return m
    raise RuntimeError("generator could not bound paths")

def gen_frame(rng, pool, rich):
    fr = {"name": rng.choice(pool)}
    t = rng.choice(["function", "function", "loop", "statement", None]) if rich else "function"
    if t:
        fr["type"] = t
    if rich and rng.random() < 0.5:
        fr["file"] = rng.choice(["a.c", "b.c", "lib/x.cpp"])
    if rich and rng.random() < 0.4:
        fr["line"] = rng.randint(0, 3)
    return fr

def add_back_edge(rng, m):
    """Close a cycle: make an ancestor a child of one of its descendants (a self-edge is possible).
    Sibling frames stay distinct.  Returns whether an edge was added."""
    n = len(m.frames)
    for _ in range(10):
        a = rng.randrange(n)
        i = rng.choice(sorted(m.desc(a)))
        if a not in m.children[i] and all(m.key(c) != m.key(a) for c in m.children[i]):
            m.children[i].append(a)
            return True
    return False

def all_trees(n):
    """All ordered parent vectors of rooted trees with n nodes (parent[i] < i)."""
    return itertools.product(*[range(i) for i in range(1, n)])

def tree_from_parents(par, frames):
    m = Model()
    m.frames = frames
    m.children = [[] for _ in frames]
    m.roots = [0]
    for i, p in enumerate(par, 1):
        m.children[p].append(i)
    return m

# ---------------------------------------------------------------- metrics
def val(rng, nanp=0.1, lo=-200, hi=400):
    """Dyadic values: sums are exact in any order."""
    r = rng.random()
    if r < nanp:
        return NAN
    if r < nanp + 0.1:
        return 0.0
    return frac(rng, lo, hi, 0.25)

def frac(rng, lo, hi, step=0.125):
    """lo..hi steps, sometimes with more digits than single precision holds."""
    v = rng.randint(lo, hi) * step
    if rng.random() < FINE:
        v += rng.randrange(1, 2 ** 22) * 2.0 ** -22 * step
    return v

def gen_rows(rng, m, levels=None, exc=("time",), inc=("time (inc)",), nanp=0.1, ragged=None, nonneg=False, extra=True,
             ranks=None, threads=None, ordered=None):
    if levels is None:
        levels = rng.choice([(), (), ("rank",), ("thread",), ("rank", "thread")])
    m.levels = tuple(levels)
    m.exc, m.inc = list(exc), list(inc)
    vals = []
    for lv in m.levels:
        k = (ranks if lv == "rank" else threads) or rng.randint(1, 3)
        vals.append(list(range(k)) if rng.random() < 0.85 else sorted(rng.sample(range(12), k)))
    combos = list(itertools.product(*vals))
    ragged = rng.random() < 0.3 if ragged is None else ragged
    loadcol = bool(extra) and rng.random() < 0.5      # a numeric column that is no metric and differs between a node's rows
    m.columns = list(exc) + list(inc) + ["name"] + (["module", "nid"] if extra else []) + (["load"] if loadcol else [])
    for i in range(len(m.frames)):
        cs = combos
        if ragged and len(combos) > 1:
            cs = [c for c in combos if rng.random() < 0.7] or [rng.choice(combos)]
        mod = rng.choice(["libA.so", "libB.so", None])
        for c in cs:
            row = {x: val(rng, nanp, 0 if nonneg else -200) for x in list(exc) + list(inc)}
            row["name"] = m.frames[i]["name"]
            if extra:
                row["module"] = mod
                row["nid"] = i
            if loadcol:
                row["load"] = val(rng, 0.2)
            m.rows[(i, c)] = row
    m.int_cols = [x for x in list(exc) + list(inc) if rng.random() < INTS]     # counters: columns of whole numbers
    for x in m.int_cols:
        for row in m.rows.values():
            row[x] = rng.randint(0 if nonneg else -50, 100) if rng.random() < 0.8 else 0
    if len(m.columns) > 2 and rng.random() < 0.3:
        rng.shuffle(m.columns)
    m.default_metric = rng.choice(list(exc) + list(inc)) if rng.random() < 0.5 else "time"
    if (ORDERED if ordered is None else ordered) > rng.random() and m.node_order is False:           # the profile tells the order of its nodes
        m.node_order = rng.sample(range(3 * len(m.frames)), len(m.frames))
    m.metadata = rng.choice([{}, {"launch": "x", "nested": {"a": [1, 2]}}])
    return m

# ---------------------------------------------------------------- building hatchet objects
def build_graph(m, rng=None):
    from hatchet.graph import Graph
    from hatchet.node import Node
    from hatchet.frame import Frame
    nodes = [Node(Frame(dict(f))) for f in m.frames]
    for i, cs in enumerate(m.children):
        for c in cs:
            nodes[i].add_child(nodes[c])
            nodes[c].add_parent(nodes[i])
    g = Graph([nodes[r] for r in m.roots])
    if m.node_order:
        for i, nd in enumerate(nodes):
            nd._hatchet_nid = m.node_order[i]
        g.node_ordering = True
    g.enumerate_traverse()
    return g, nodes

def build(m, rng=None, graph=None):
    """Real GraphFrame for the model; returns (gf, nodes) with nodes[i] the Node of model node i."""
    from hatchet.graphframe import GraphFrame
    g, nodes = graph or build_graph(m)
    recs = []
    for (i, c), row in m.rows.items():
        r = {"node": nodes[i]}
        r.update(dict(zip(m.levels, c)))
        for col in m.columns:
            r[col] = row.get(col, NAN)
        recs.append(r)
    df = pd.DataFrame(recs, columns=["node"] + list(m.levels) + list(m.columns))
    for col in list(m.exc) + list(m.inc):
        v = df[col].astype(float)
        df[col] = v.astype("int64") if col in m.int_cols and (np.isfinite(v) & (v == v.round())).all() else v
    df.set_index(["node"] + list(m.levels), inplace=True)
    df.sort_index(inplace=True)
    gf = GraphFrame(g, df, list(m.exc), list(m.inc), m.default_metric, dict(m.metadata))
    return gf, nodes

def gen_gf(rng, **kw):
    gkw = {k: kw.pop(k) for k in ("n", "kind", "unique", "names", "rich", "max_n", "max_paths") if k in kw}
    m = gen_graph(rng, **gkw)
    gen_rows(rng, m, **kw)
    return (m,) + build(m)

def rank_names(rng, m, suffixes="abc", unique=True):
    """Rename so that names strictly increase along every edge (no union by context can
    create a cycle); siblings and roots stay distinct (if unique)."""
    n = len(m.frames)
    level = [0] * n
    for i in range(n):                       # children have larger numbers than parents
        for c in m.children[i]:
            level[c] = max(level[c], level[i] + 1)
    par = m.parents()
    for i in range(n):
        taken = set()
        sibs = set(m.roots) if i in m.roots else set()
        for p in par[i]:
            sibs |= set(m.children[p])
        taken = {m.frames[s]["name"] for s in sibs if s < i} if unique else set()
        opts = ["L%02d%s" % (level[i], s) for s in suffixes]
        free = [o for o in opts if o not in taken]
        k = 0
        while not free:
            o = "L%02d%s%d" % (level[i], suffixes[0], k); k += 1
            if o not in taken:
                free = [o]
        m.frames[i] = {"name": rng.choice(free), "type": "function"}
    return m
