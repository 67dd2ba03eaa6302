"""Data crosses between the notebook and visualisations unchanged."""
import copy, json, os, re, shutil, subprocess, sys, tempfile
from .. import gen, obs
from ..core import Skip
RULE = ("histories of notebook cells on a real IPython shell and a page run by Node with the library's own JavaScript: visualisations loaded, values bound one way and both ways under several names, variables assigned in cells in every form of assignment, "
        "values set by the page and fetched; strings with quotes, backslashes, line breaks and other scripts, nested lists and dictionaries, dataframes, graphframes; oracle = the value last sent; non-trivial = history with >= 4 transfers")
REQUIRED = {"scripts": 2000, "compared": 5000, "data": 500, "var": 200, "watch": 400, "updates": 200, "bound_twice": 30, "fetched": 200, "page_changes": 60, "rerun_cells": 20, "broken_cells": 150, "augmented": 20, "rerun_assigned": 100, "graphframes": 200, "queries_fetched": 250, "several_shown": 80}

class Page:
    def __init__(self):
        self.p = subprocess.Popen(["node", os.path.join(os.path.dirname(os.path.dirname(__file__)), "page.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")
    def __call__(self, op, **kw):
        self.p.stdin.write(json.dumps(dict(kw, op=op)) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

STATE = {}

def setup():
    """One shell and one Node process per worker."""
    if STATE.get("pid") == os.getpid():
        return
    STATE.clear()
    if not shutil.which("node"):
        raise RuntimeError("node is not installed")
    import atexit
    d = tempfile.mkdtemp(prefix="hv-ipy")
    os.environ["IPYTHONDIR"] = d
    from IPython.core.interactiveshell import InteractiveShell
    from IPython.core.displaypub import CapturingDisplayPublisher
    from traitlets.config import Config
    c = Config()
    c.HistoryManager.enabled = False
    ip = InteractiveShell.instance(config=c)
    ip.display_pub = CapturingDisplayPublisher()
    shutil.rmtree(d, ignore_errors=True)
    page = Page()
    import importlib.util, hatchet
    f = os.path.join(os.path.dirname(os.path.abspath(hatchet.__file__)), "external", "roundtrip", "roundtrip", "manager.py")
    spec = importlib.util.spec_from_file_location("hv_roundtrip_manager", f)        # the package's own copy was loaded before there was a shell
    manager = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(manager)
    own = [f.__name__ for f in ip.events.callbacks["post_run_cell"] if getattr(f, "__self__", None) is manager.Roundtrip]
    if len(own) != 1:
        raise RuntimeError("callbacks after a cell: %r" % (ip.events.callbacks["post_run_cell"],))
    STATE.update(pid=os.getpid(), ip=ip, page=page, manager=manager, callback=own[0])

def hostile(rng, n=None):
    return "".join(rng.choice(["a", "Z", "0", " ", "'", '"', "\\", "\n", "\r", "\t", "`", "${x}", "{", "}", "{0}", "%s", "\u2028", "\u00fc", "\U0001f600", "\x00", "</script>", "//", "/*", "\\n", "\\'", "\\\\", ";", "'+'"])
                   for _ in range(n if n is not None else rng.choice([0, 1, 3, 8])))

def value(rng, depth=2):
    k = rng.choice(["str", "str", "int", "float"] + (["dict", "list"] if depth else []))
    if k == "str":
        return hostile(rng)
    if k == "int":
        return rng.randint(-10 ** 9, 10 ** 9)
    if k == "float":
        return rng.choice([0.5, -1.25e-9, 3e300, 1 / 3])
    if k == "dict":
        return {hostile(rng, 2): value(rng, depth - 1) for _ in range(rng.randint(0, 3))}
    return [value(rng, depth - 1) for _ in range(rng.randint(0, 3))]

def plain(data):
    """The documented text of a value sent without a converter."""
    return "{}" if data is None else json.dumps(data) if isinstance(data, (dict, list)) else str(data)

def convert_twice(data):
    return json.dumps({"twice": [data, data]})

def upper_back(data):
    return data.upper()

def case(ctx, rng):
    setup()
    ip, page, manager = STATE["ip"], STATE["page"], STATE["manager"]
    pub = ip.display_pub
    ip.reset(new_session=True)
    ip.user_ns.pop("x", None)
    callbacks = list(ip.events.callbacks["post_run_cell"])
    for f in callbacks:
        ip.events.unregister("post_run_cell", f)
    cells = 8
    page("page", cells=cells)
    pub.outputs.clear()
    rt = manager.RoundTrip(ipy_shell=ip)
    rt_callback = getattr(rt, STATE["callback"])
    ip.events.register("post_run_cell", rt_callback)
    log = []
    def flush(silent=False):
        out = list(pub.outputs)
        pub.outputs.clear()
        done = []
        for o in out:
            js = o["data"].get("application/javascript")
            if js is not None:
                r = page("run", code=js)
                ctx.expect("error" not in r, "script", "a generated script fails: %s" % r.get("error"), script=js[-600:], history=log)
                ctx.hit("scripts")
                for code in r["executed"]:
                    cell(code, silent=True)
                    ctx.hit("python_from_page")
                done.append(r)
        return done
    def cell(code, silent=False, fails=False):
        so, se = sys.stdout, sys.stderr
        import io
        sys.stdout = sys.stderr = buf = io.StringIO()
        try:
            r = ip.run_cell(code, silent=silent, store_history=not silent)
        finally:
            sys.stdout, sys.stderr = so, se
        text = buf.getvalue()
        ctx.expect("Error in callback" not in text, "callback", "the callback after a cell fails", cell=code, output=text[-600:], history=log)
        if not fails:
            ctx.expect(r.success, "cell", "Python code %s fails: %r" % ("of the page" if silent else "of a cell", r.error_in_exec or r.error_before_exec), cell=code, history=log)
        ctx.hit("cells")
    def get(name):
        return page("get", name=name)
    try:
        flush()
        want = {}                                        # js name -> text it has to hold
        watched = {}                                     # python name -> {js name: converter}
        bound = {}                                       # js name -> {python name: cells bound both ways}
        back = {}                                        # js name -> conversion of what the page sends
        pyn, jsn = ["x", "data_1"], ["v0", "v1", "hatchet_tree_def"]
        many = rng.random() < 0.4                        # many cells bound to few members
        if many:
            pyn, jsn = pyn[:1], rng.sample(jsn, rng.choice([1, 2]))
        n = clicked = 0
        rt.load_web_files([])
        for step in range(rng.choice([4, 8, 14])):
            op = rng.choice(["watch", "watch", "watch", "var", "assign", "page"] if many else ["load", "data", "data", "var", "watch", "watch", "watch", "assign", "assign", "assign", "read", "fetch", "page", "page", "broken"])
            here = rng.randrange(1, cells)
            page("select", cell=here)
            js, py = rng.choice(jsn), rng.choice(pyn)
            if op == "load":
                rt.load_web_files([])
                rt.initialize()
                log.append("load")
            elif op == "data":
                v = value(rng)
                log.append(("data_to_js", js, v))
                conv = rng.choice([None, None, convert_twice])
                rt.data_to_js(v, js, **({"to_js_converter": conv} if conv else {}))
                back[js] = None
                want[js] = ((conv or plain)(v), v if not conv else {"twice": [v, v]})
                n += 1
                ctx.hit("data")
            elif op in ("var", "watch"):
                if op == "watch" and watched.get(py, {}).get(js) is None and any(js in w for p, w in watched.items() if p != py):
                    continue                             # one member for two variables
                v = copy.deepcopy(ip.user_ns.get(py))
                log.append(("var_to_js", ("?" if op == "watch" else "") + py, js))
                conv = rng.choice([None, None, convert_twice])
                kw = {"to_js_converter": conv} if conv else {}
                back[js] = rng.choice([None, upper_back])
                if back[js]:
                    kw["from_js_converter"] = upper_back
                rt.var_to_js(("?" if op == "watch" else "") + py, js, watch=op == "watch", **kw)
                c = conv or plain
                want[js] = (c(v), ({} if v is None else v) if not conv else {"twice": [v, v]})
                cs = bound.setdefault(js, {}).setdefault(py, set())
                (cs.add if op == "watch" else cs.discard)(here)
                if op == "watch":
                    watched.setdefault(py, {})[js] = c
                    ctx.hit("bound_twice", len(watched[py]) > 1)
                n += 1
                ctx.hit(op)
            elif op == "assign":
                v = value(rng)
                form = rng.choice(["%s = %s", "if True:\n    %s = %s", "z = %s = %s", "%s = (\n  %s\n)", "q = 1; %s = %s", "%s: object = %s", "%s, q = %s, 2", "q = 3\n%s = %s\nq = 4\n", "for q in (1, 2):\n    %s = %s\n", "{0}\n{0} = {1}", "q = [{0}]\nfor q in [{0}]:\n    pass\n{0} = {1}", "q, {0} = {0}, {1}", "{0} = {{}}; {0}[\n  'k'] = {1}", "{0}: dict[str,\n  int] = {1}",
                                   "try:\n    {0} = {1}\nexcept Exception: pass"])
                if isinstance(v, (str, list, int, float)) and type(ip.user_ns.get(py)) is type(v) and rng.random() < 0.3:
                    form = rng.choice(["{0} += {1}", "if 1:\n  {0}+={1}"])
                    ctx.hit("augmented")
                ip.user_ns.setdefault(py, None)
                code = form % (py, repr(v)) if "%" in form else form.format(py, repr(v))
                if "+=" in form:
                    v = ip.user_ns[py] + v
                elif "'k'" in form:
                    v = {"k": v}
                log.append(("cell", code))
                cell(code)
                ctx.equal(ip.user_ns[py], v, "shell", "harness: assigned value")
                again = sorted({x for b in bound.values() for x in b.get(py, ())} - {clicked})
                for j, c in watched.get(py, {}).items():
                    want[j] = (c(v), v if c is plain else {"twice": [v, v]})
                    ctx.hit("updates")
                n += 1
            elif op == "read":
                code = rng.choice(["str(%s)", "print(%s)", "w = %s", "[%s]", "# %s = 3", "w = '''%s = 3'''"]) % py
                ip.user_ns.setdefault(py, None)
                log.append(("cell", code))
                cell(code)
            elif op == "broken":
                code = rng.choice(["1 / 0", "raise KeyError", "(", "'abc", "if True:\n", "f('"])
                log.append(("cell", code))
                cell(code, fails=True)
                ctx.hit("broken_cells")
            elif op == "fetch":
                v = rng.choice([hostile(rng), hostile(rng), rng.randint(-5, 5), json.dumps(value(rng))])
                src = rng.choice(["fresh%d" % step, js])
                if any(src in w for w in watched.values()):
                    continue
                r = page("set", name=src, value=v)
                ctx.expect("error" not in r, "page-set", "setting a value fails: %s" % r.get("error"))
                conv = rng.choice([None, upper_back])
                log.append(("fetch_data", src, v))
                if src in want or src in jsn:
                    want[src] = (v, None)
                rt.fetch_data(src, py, **({"converter": conv} if conv else {}))
                flush()
                text = v if isinstance(v, str) else str(v)
                ctx.equal(ip.user_ns.get(py), text.upper() if conv else text, "fetch", "value fetched from the page", history=log)
                n += 1
                ctx.hit("fetched")
                continue
            elif op == "page":
                # the user changes a visualisation in a cell that is bound both ways
                can = [(j, p, c) for j in bound for p in bound[j] for c in bound[j][p] if sum(c in x for x in bound[j].values()) == 1]
                if not can:
                    continue
                j, p, c = rng.choice(sorted(can))
                v = rng.choice([hostile(rng), json.dumps(value(rng))])
                log.append(("page", j, p, c, v))
                page("click", cell=c)
                clicked = c
                r = page("set", name=j, value=v)
                ctx.expect("error" not in r, "page-set", "setting a bound value fails: %s" % r.get("error"), history=log)
                for code in r["executed"]:
                    cell(code, silent=True)
                ctx.equal(ip.user_ns.get(p), v.upper() if back[j] else v, "from-page", "variable bound to %s" % j, history=log)
                others = {x for b in bound.values() for x in b.get(p, ())} - {c}
                ctx.equal(sorted(set(sum(r["rerun"], []))), sorted(others), "rerun", "cells to run again", history=log)
                want[j] = (v, None)
                n += 1
                ctx.hit("page_changes"); ctx.hit("rerun_cells", len(others))
            ran = flush()
            if op == "assign":
                ctx.equal(sorted(set(sum((x for r in ran for x in r["rerun"]), []))), again, "rerun", "cells to run again after an assignment", history=log)
                ctx.hit("rerun_assigned", len(again))
            for j, (text, v) in want.items():
                g = get(j)
                ctx.expect("error" not in g, "page-get", "reading %s fails: %s" % (j, g.get("error")), history=log)
                ctx.equal(g["value"], text, "to-page", "text of %s on the page" % j, history=log)
                ctx.hit("compared")
                if v is not None and isinstance(v, (dict, list)):
                    ctx.equal(json.loads(g["value"]), v, "to-page", "value of %s on the page" % j, history=log)
        if n >= 4:
            ctx.nontrivial(json.dumps(log, default=str))
        ctx.sample({"history": [str(x)[:80] for x in log]})
    finally:
        ip.events.unregister("post_run_cell", rt_callback)
        for f in callbacks:
            ip.events.register("post_run_cell", f)
        pub.outputs.clear()

def loader():
    """The magics, without the package around them, which wants to run npm."""
    if "loader" not in STATE:
        import importlib.util, hatchet
        f = os.path.join(os.path.dirname(os.path.abspath(hatchet.__file__)), "vis", "loader.py")
        spec = importlib.util.spec_from_file_location("hv_vis_loader", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        STATE["loader"] = m
    return STATE["loader"]

def magics(ctx, rng):
    """%cct and %cct_fetch_query: a graphframe shown, a query fetched."""
    setup()
    ip, page, manager = STATE["ip"], STATE["page"], STATE["manager"]
    L = loader()
    pub = ip.display_pub
    page("page", cells=3)
    page("select", cell=1)
    pub.outputs.clear()
    tmp = ctx.tmpdir()
    old, rt0 = os.getcwd(), L.RT
    callbacks = list(ip.events.callbacks["post_run_cell"])
    for f in callbacks:
        ip.events.unregister("post_run_cell", f)
    work = os.path.join(tmp, "cwd")
    os.mkdir(work)
    script = "var u = %s; if (1 < 2 && u) { window.seen = (window.seen || 0) + 1; }" % json.dumps(hostile(rng, 4).replace("<", "").replace("/", ""))
    for n, t in (("b.js", script), ("cct_bundle.html", '<!DOCTYPE html><html><head><meta charset="utf-8"></head><body><div id="root"></div><script src="%s"></script></body></html>' % os.path.join(tmp, "b.js"))):
        with open(os.path.join(tmp, n), "w", encoding="utf-8", newline="") as fh:
            fh.write(t)
    try:
        os.chdir(work)
        rt = L.RT = manager.RoundTrip(ipy_shell=ip)
        cct = L.CCT(shell=ip)
        cct.vis_dist = tmp
        ids = []
        for k in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.8:
                m, gf, nodes = gen.gen_gf(rng, max_n=6, levels=(), names=[hostile(rng, 3) + str(i) for i in range(6)] if rng.random() < 0.6 else None, exc=("time",), inc=("time (inc)",))
                v, want = gf, gf.to_literal()
                ctx.hit("graphframes")
            else:
                v = want = {"a": [1, hostile(rng), None], "b": hostile(rng)}
            name = rng.choice(["gf", "gf_2"])
            ip.user_ns[name] = v
            if rng.random() < 0.3:
                rt.load_web_files([])
                rt.data_to_js(1, "n")
                rt.initialize()
            cct.cct(name)
            html = ""
            for o in pub.outputs:
                d = o["data"]
                if "application/javascript" in d:
                    r = page("run", code=d["application/javascript"])
                    ctx.expect("error" not in r, "script", "a generated script fails: %s" % r.get("error"))
                if d.get("text/html"):
                    html += d["text/html"]
                    ids += re.findall(r'<(?:div|script) id="([^"]*-\d+)"', d["text/html"])
            pub.outputs.clear()
            ctx.equal(html.count(script), 1, "bundle", "copies of the visualisation's script")
            g = page("get", name="hatchet_tree_def")
            ctx.expect("error" not in g and isinstance(g["value"], str), "to-page", "no data on the page: %r" % (g,))
            got = json.loads(g["value"])
            ctx.equal(got, json.loads(json.dumps(want, default=str)), "to-page", "graphframe on the page")
            q = hostile(rng)
            page("set", name="jsNodeSelected", value=q)
            cct.cct_fetch_query("query")
            for o in pub.outputs:
                js = o["data"].get("application/javascript")
                if js is not None:
                    r = page("run", code=js)
                    ctx.expect("error" not in r, "script", "a generated script fails: %s" % r.get("error"))
                    for code in r["executed"]:
                        exec(code, ip.user_ns)
            pub.outputs.clear()
            ctx.equal(ip.user_ns.get("query"), q, "fetch", "query fetched from the page")
            ctx.hit("queries_fetched")
        ctx.equal(len(set(ids)), len(ids), "element-ids", "elements of visualisations that have the same id: %r" % ids)
        ctx.hit("several_shown", len(ids) > 1)
        ctx.equal(os.listdir("."), [], "stray-files", "files left in the working directory")
        ctx.nontrivial(script, len(ids), sorted(map(str, want))[:3])
    finally:
        os.chdir(old)
        L.RT = rt0
        for f in callbacks:
            ip.events.register("post_run_cell", f)
        pub.outputs.clear()

SCENARIOS = [("magics", magics, 250, 1500), ("notebook", case, 800, 5000)]
