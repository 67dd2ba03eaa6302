"""The tree visualisation shows the graph and hands back a query for what it shows."""
import copy, json, os, subprocess
from .. import gen
from . import c48
RULE = ("graphframes shown with %cct and the visualisation's own code, as bundled and as in the sources, run by Node without a screen; histories of collapsing, expanding, selecting, changing the metric, keeping a range of values and composing nodes away; "
        "oracle = a model of what is shown (nodes with a value in the range and the nodes above them, the rest in groups below their parent), and for the fetched query the nodes on the paths to what is shown; non-trivial = history with >= 2 changes and a group")
REQUIRED = {"bundle": 150, "source": 150, "states": 1200, "queries": 500, "collapsed": 150, "expanded": 100, "ranges": 150, "metrics_changed": 30, "composed": 100, "groups": 500, "big_groups": 60, "dags": 30, "several_trees": 60, "first_queries": 200, "ranks": 20, "selected": 100}
JOBS = 8

class Tree(c48.Page):
    def __init__(self):
        f = os.path.join(os.path.dirname(os.path.dirname(__file__)), "vistree.js")
        self.p = subprocess.Popen(["node", "--no-warnings", "--experimental-vm-modules", f], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")

def tree():
    c48.setup()
    if "tree" not in c48.STATE:
        c48.STATE["tree"] = Tree()
    return c48.STATE["tree"]

# a model of the shown trees: {"nid", "m": metrics, "c": children} or {"group": [trees]}
def whole(d):
    m = dict(d["metrics"])
    return {"nid": m.pop("_hatchet_nid"), "m": m, "c": [whole(c) for c in d.get("children", [])]}

def keep(t, wanted):
    """The tree with what is not wanted in groups."""
    def any_in(x):
        return wanted(x["m"]) or any(any_in(c) for c in x["c"])
    out = {"nid": t["nid"], "m": t["m"], "c": [keep(c, wanted) for c in t["c"] if any_in(c)]}
    rest = [c for c in t["c"] if not any_in(c)]
    if rest:
        out["c"].append({"group": copy.deepcopy(rest)})
    return out

def shape(t):
    if "group" in t:
        return ["group", sorted(x["nid"] for x in t["group"])]
    return ["node", t["nid"], sorted((shape(c) for c in t["c"]), key=repr)]

def js_shape(t):
    if "group" in t:
        return ["group", sorted(t["group"])] + ([["children of a group", t["children"]]] if t["children"] else [])
    return ["node", t["nid"], sorted((js_shape(c) for c in t["children"]), key=repr)]

def places(js, models):
    """Every shown place: path of positions, parent in the model, node of the model, node of the page."""
    out = []
    def pair(path, jt, parent, mt):
        out.append((path, parent, mt, jt))
        if "group" in mt:
            return
        left = list(mt["c"])
        for i, c in enumerate(jt["children"]):
            k = next(x for x in range(len(left)) if shape(left[x]) == js_shape(c))
            pair(path + [i], c, mt, left.pop(k))
    left = list(models)
    for i, j in enumerate(js):
        k = next(x for x in range(len(left)) if shape(left[x]) == js_shape(j))
        pair([i], j, None, left.pop(k))
    return out

def fetch(ctx, query):
    """The query goes from the page to the notebook with %cct_fetch_query."""
    ip, page, manager = c48.STATE["ip"], c48.STATE["page"], c48.STATE["manager"]
    L = c48.loader()
    page("set", name="jsNodeSelected", value=query)
    L.CCT(shell=ip).cct_fetch_query("query")
    flush(ctx)
    return ip.user_ns.get("query")

def flush(ctx):
    """What the notebook shows runs on the page, what the page executes in the notebook."""
    ip, page = c48.STATE["ip"], c48.STATE["page"]
    for o in ip.display_pub.outputs:
        js = o["data"].get("application/javascript")
        if js is not None:
            r = page("run", code=js)
            ctx.expect("error" not in r, "script", "a generated script fails: %s" % r.get("error"))
            for code in r["executed"]:
                exec(code, ip.user_ns)
    ip.display_pub.outputs.clear()

def case(ctx, rng):
    T = tree()
    ip, page, manager = c48.STATE["ip"], c48.STATE["page"], c48.STATE["manager"]
    L = c48.loader()
    import hatchet
    vis = os.path.join(os.path.dirname(os.path.abspath(hatchet.__file__)), "vis")
    kind = rng.choice(["bundle", "source"])
    ranks = rng.random() < 0.15
    exc, inc = rng.choice([(("time",), ("time (inc)",)), (("time", "bytes"), ()), ((), ("total",)), (("a", "time"), ("time (inc)", "z (inc)"))])
    m, gf, nodes = gen.gen_gf(rng, max_n=rng.choice([3, 8, 16]), max_paths=60, levels=("rank",) if ranks else (), ragged=False, exc=exc, inc=inc)
    if ranks and not all((n, 0) in gf.dataframe.index for n in gf.graph.traverse()):
        ctx.hit("no_rank_zero")                        # the default rank of to_literal()
        return
    names = sorted(exc + inc)
    for c in names:
        if rng.random() < 0.8:
            gf.dataframe[c] = [rng.choice([0, 0, 0.0, 1, 2.5, -3, 7, 1e9]) for _ in range(len(gf.dataframe))]
    dag = any(len(n.parents) > 1 for n in gf.graph.traverse())
    ctx.hit("ranks", ranks); ctx.hit("dags", dag); ctx.hit("several_trees", len(gf.graph.roots) > 1); ctx.hit(kind)
    page("page", cells=3)
    page("select", cell=1)
    ip.display_pub.outputs.clear()
    callbacks = list(ip.events.callbacks["post_run_cell"])
    for f in callbacks:
        ip.events.unregister("post_run_cell", f)
    rt0, L.RT = L.RT, manager.RoundTrip(ipy_shell=ip)
    log = []
    try:
        L.RT.load_web_files([])
        ip.user_ns["gf"] = gf
        L.RT.var_to_js("gf", "hatchet_tree_def", watch=False, to_js_converter=L._gf_to_json)
        L.RT.initialize()
        flush(ctx)
        text = page("get", name="hatchet_tree_def")["value"]
        def do(op, **kw):
            r = T(op, **kw)
            ctx.expect("error" not in r, "script", "the visualisation fails: %s" % r.get("error", "")[:600], history=log, tree=text[:3000])
            return r
        do("load", kind=kind, dir=vis, text=text)
        orig = [whole(d) for d in json.loads(text)]
        metric = names[0]
        shown = [keep(t, lambda x: x[metric] != 0) for t in orig]
        by_nid = {n._hatchet_nid: n for n in gf.graph.traverse()}
        removed, changes = [], 0
        def look():
            s = do("state")
            ctx.equal(sorted((js_shape(t) for t in s["trees"]), key=repr), sorted((shape(t) for t in shown), key=repr), "shown", "what is shown (%s)" % kind, history=log, tree=text[:3000])
            ctx.equal((s["metrics"], s["metric"]), (names, metric), "metrics", "metrics offered and used (%s)" % kind, history=log)
            ctx.hit("states")
            return s
        def selects(q, want, what):
            q = fetch(ctx, q)
            try:
                got = gf.filter(q, squash=False, num_procs=1, multi_index_mode=rng.choice(["any", "all"]) if ranks else "off")
                got = {n._hatchet_nid for n in got.dataframe.index.get_level_values("node")}
            except Exception as e:
                ctx.expect(type(e).__name__ == "EmptyFilter" and not want, "query", "filter() does not take the query %r of the visualisation: %s: %s" % (q, type(e).__name__, e), history=log)
                return
            ctx.equal(sorted(got), sorted(want), "query", "nodes selected by the query for %s (%s)" % (what, kind), query=q, history=log, tree=text[:3000])
            ctx.hit("queries")
        s = look()
        if rng.random() < 0.5:
            selects(s["query"], set(by_nid), "everything")
            ctx.hit("first_queries")
        do("bins", bins=rng.choice([2, 20]))
        composing = False
        for step in range(rng.choice([1, 3, 6])):
            s = look()
            pl = places(s["trees"], shown)
            op = rng.choice(["toggle", "toggle", "toggle", "range", "metric", "select", "compose", "snapshot"])
            if composing and op in ("range", "metric", "toggle"):
                op = "compose"                     # the visualisation warns about more than that
            if op == "toggle":
                groups = [p for p in pl if "group" in p[2]]
                path, parent, mt, jt = rng.choice(groups) if groups and rng.random() < 0.5 else rng.choice(pl)
                log.append(("toggle", path, shape(mt)[:2]))
                do("event", type="COLLAPSESUBTREE", node=path)
                if parent is not None:
                    i = next(k for k, x in enumerate(parent["c"]) if x is mt)
                    parent["c"][i:i + 1] = mt["group"] if "group" in mt else [{"group": [mt]}]
                    ctx.hit("expanded" if "group" in mt else "collapsed")
                    changes += 1
            elif op == "metric":
                metric = rng.choice(names)
                log.append(("metric", metric))
                do("event", type="METRICCHANGE", args={"newMetric": metric, "source": rng.choice(["primary", "primaryMetric"])})
                ctx.hit("metrics_changed")
            elif op == "range":
                vals = sorted({x for t in orig for x in values(t, metric)})
                lo, hi = sorted([rng.choice(vals), rng.choice(vals)])
                lo, hi = rng.choice([(lo, hi), (lo - 0.5, hi + 0.5), (lo + 0.25, hi)])
                log.append(("range", metric, lo, hi))
                do("event", type="PRUNERANGEUPDATE", args={"low": lo, "high": hi})
                shown = [keep(t, lambda x: x[metric] != 0 and lo <= x[metric] <= hi) for t in orig]
                ctx.hit("ranges")
                changes += 1
            elif op == "select":
                some = rng.sample(pl, rng.randint(0, min(3, len(pl))))
                log.append(("select", [shape(p[2])[:2] for p in some]))
                do("event", type=rng.choice(["UPDATESELECTED", "CLICK"]), nodes=[p[0] for p in some])
                ctx.hit("selected")
            elif op == "compose":
                can = [p for p in pl if p[1] is not None and "group" not in p[2]]
                if dag or not can:
                    continue
                composing = True
                path, parent, mt, jt = rng.choice(can)
                log.append(("compose", path, mt["nid"]))
                do("event", type="COMPOSEINTERNAL", node=path)
                i = next(k for k, x in enumerate(parent["c"]) if x is mt)
                parent["c"][i:i + 1] = mt["c"]
                removed.append(mt["nid"])
                ctx.hit("composed")
                changes += 1
            s = look()
            ngroups = [p for p in places(s["trees"], shown) if "group" in p[2]]
            ctx.hit("groups", len(ngroups)); ctx.hit("big_groups", sum(len(p[2]["group"]) > 1 for p in ngroups))
            for p in ngroups:
                ctx.expect(p[3]["stands"] in [x["nid"] for x in p[2]["group"]], "stands-for", "a group stands for a node outside it", history=log, group=p[3])
            if op == "snapshot" or rng.random() < 0.5:
                do("event", type="SNAPSHOT")
                s2 = look()
                ends = [p[3].get("stands", p[3].get("nid")) for p in places(s2["trees"], shown) if "group" in p[2] or not p[2]["c"]]
                want, todo = set(), [by_nid[e] for e in ends]
                while todo:
                    n = todo.pop()
                    if n._hatchet_nid not in want:
                        want.add(n._hatchet_nid)
                        todo += n.parents
                log.append(("snapshot", s2["query"]))
                selects(s2["query"], want - set(removed), "the snapshot")
        if changes >= 2:
            ctx.nontrivial(text, json.dumps(log, default=str))
        ctx.sample({"tree": text[:300], "history": [str(x)[:100] for x in log]})
    finally:
        L.RT = rt0
        for f in callbacks:
            ip.events.register("post_run_cell", f)
        ip.display_pub.outputs.clear()

def values(t, metric):
    yield t["m"][metric]
    for c in t["c"]:
        yield from values(c, metric)

SCENARIOS = [("tree", case, 1800, 20000)]
