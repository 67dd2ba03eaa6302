import re, sys, warnings
from .. import gen, obs
RULE = ("random graphframes (trees, forests, DAGs; single, rank, thread and rank+thread index; NaN, infinities, negative values) x rendering options (one, two or three metrics, precision, "
        "long names, expansion, name/context/annotation columns, depth, rank, thread, colour mode with value limits, missing-node marks); oracle = reference layout, line by line; "
        "non-trivial = >=3 lines")
REQUIRED = {"node_order": 60, "renders": 600, "multi_index": 200, "dags": 80, "depth_cut": 60, "two_metrics": 100, "annotated": 100, "marked": 100, "truncated": 40, "context": 60, "coloured": 120,
            "limits": 40, "colour_checks": 300, "header": 60, "refusals": 30, "inverted": 40, "highlight_checks": 300, "annotation_colours": 40, "pattern": 20, "cycles": 40}
PATTERN = {"none": "", "constant": "\u2192", "phased": "\u2933", "dynamic": "\u21dd", "sporadic": "\u219d"}
ANSI = re.compile("\033\\[[0-9;]*m")
LONG = ["solve_the_poisson_equation_on_the_finest_level_of_the_grid", "x" * 39, "y" * 40, "std::vector<std::pair<int,double>>::push_back(int&&)"]

class Tty:
    def isatty(self):
        return True
    def write(self, s):
        return len(s)
    def flush(self):
        pass

def layout(m, order_key, depth, line):
    """Reference lines: indentation + line(i) for each occurrence, children at the first one only."""
    out, seen = [], set()
    def go(i, lead, child_lead, d):
        if d >= depth:
            return
        out.append((i, lead + line(i)))
        if i in seen:
            return
        seen.add(i)
        cs = sorted(m.children[i], key=order_key)
        for j, c in enumerate(cs):
            last = j == len(cs) - 1
            go(c, child_lead + ("└─ " if last else "├─ "), child_lead + ("   " if last else "│  "), d + 1)
    for r in sorted(m.roots, key=order_key):
        go(r, "", "", 0)
    return out

def case(ctx, rng):
    kind = rng.choice(["tree", "tree", "forest", "dag", "dagforest"])
    names = rng.sample(gen.NAMES, 12) + LONG
    m = gen.gen_graph(rng, kind=kind, rich=rng.random() < 0.3, max_n=rng.choice([1, 5, 12, 20]), names=names if rng.random() < 0.6 else None, max_paths=200)
    if kind.startswith("dag") and rng.random() < 0.3:
        ctx.hit("cycles", gen.add_back_edge(rng, m))
    lv = rng.choice([(), (), ("rank",), ("thread",), ("rank", "thread")])
    gen.gen_rows(rng, m, levels=lv, exc=("time", "bytes"), inc=("time (inc)",), nanp=rng.choice([0, 0, 0.2]), ragged=False)
    if rng.random() < 0.2:
        for k in rng.sample(sorted(m.rows), 1):
            m.rows[k]["time"] = rng.choice([float("inf"), float("-inf")])
    opts = {}
    cols = [c for c in m.columns if c in ("time", "bytes", "time (inc)")]
    nm = rng.choice([0, 1, 1, 2, 2, 3])
    mets = [rng.choice(cols)] if nm == 0 else rng.sample(cols, nm)
    if nm == 0:
        m.default_metric = mets[0]
    elif nm == 1:
        opts["metric_column"] = rng.choice([mets[0], mets])
    else:
        opts["metric_column"] = mets
    p = 3
    if rng.random() < 0.5:
        p = opts["precision"] = rng.choice([0, 1, 2, 6])
    namecol = "name"
    if rng.random() < 0.2:
        namecol = opts["name_column"] = "label"
        m.columns.append("label")
        for k, r in m.rows.items():
            r["label"] = "lab %d %s" % (k[0], k[1])
    expand = rng.random() < 0.4
    if expand:
        opts["expand_name"] = True
    elif rng.random() < 0.3:
        opts["expand_name"] = False
    ctxcol = None
    if rng.random() < 0.35:
        ctxcol = rng.choice(["file", "where"])
        if ctxcol != "file":
            opts["context_column"] = ctxcol
        m.columns.append(ctxcol)
        for k, r in m.rows.items():
            r[ctxcol] = rng.choice(["a.c", "src/b.cpp", "<unknown file>"])
    ann = None
    if rng.random() < 0.35:
        ann = opts["annotation_column"] = rng.choice(["phase", "nid", "time", "time_pattern"])
        if ann == "time_pattern":
            m.columns.append(ann)
            for k, r in m.rows.items():
                r[ann] = rng.choice(sorted(PATTERN))
        if ann == "phase":
            m.columns.append("phase")
            for k, r in m.rows.items():
                r["phase"] = rng.choice(["init", "loop", "done"])
    marks = rng.random() < 0.35
    if marks:
        m.columns.append("_missing_node")
        mk = [rng.choice([0, 0, 1, 2]) for _ in m.frames]
        for k, r in m.rows.items():
            r["_missing_node"] = mk[k[0]]
    gf, nodes = gen.build(m)
    idx = ()
    combos = sorted({k[1] for k in m.rows})
    at = rng.choice(combos)
    for l, v in zip(lv, at):
        if v or rng.random() < 0.5:
            opts[l] = v
    if rng.random() < 0.3:
        opts["rank"] = opts.get("rank", 0)
    tree = kind in ("tree", "forest")
    depth = 10000
    if tree and rng.random() < 0.4:
        depth = opts["depth"] = rng.choice([0, 1, 2, 3, 5])
    header = rng.random() < 0.3
    if not header:
        opts["render_header"] = False
    colour = rng.random() < 0.3
    lo = hi = None
    if colour:
        if rng.random() < 0.5:
            opts["highlight_name"] = True
        if rng.random() < 0.5:
            opts["colormap"] = rng.choice(["RdYlGn", "BrBG", "PiYG", "PRGn", "PuOr", "RdBu", "RdGy", "RdYlBu", "Spectral"])
        if rng.random() < 0.4:
            opts["invert_colormap"] = True
        if rng.random() < 0.4:
            lo = rng.choice([0, -10, 5]); hi = lo + rng.choice([10, 50])
            opts["min_value"], opts["max_value"] = lo, hi
            ctx.hit("limits")
        if ann and rng.random() < 0.6:
            opts["colormap_annotations"] = rng.choice(["PRGn", "RdBu", ["\033[31m", "\033[32m"]])
            if ann == "time_pattern":
                opts["colormap_annotations"] = rng.choice(["PRGn", "Spectral"])
            elif ann == "phase" and rng.random() < 0.4:
                opts["colormap_annotations"] = {"init": "\033[33m", "loop": "\033[35m", "done": "\033[36m"}
    before = obs.snap(gf)
    old = sys.stdout
    def render(opts):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if colour:
                    sys.stdout = Tty()
                return gf.tree(**opts)
            finally:
                sys.stdout = old
    text = render(opts)
    if colour and rng.random() < 0.3:
        other = render(dict(opts, invert_colormap=not opts.get("invert_colormap", False)))
        a, b = [re.findall("(\033\\[[0-9;]*m)█ ", t) for t in (text, other)]
        ctx.hit("inverted")
        ctx.expect(len(a) == 6 and a == b[::-1] and a != b, "invert", "legend colours %r, inverted %r" % (a, b))
        ctx.equal(ANSI.sub("", text), ANSI.sub("", other), "invert-text", "text under inverted colours")
    obs.expect_unchanged(ctx, before, gf, "tree-mutates", "tree()")
    ctx.hit("renders")
    ctx.expect(isinstance(text, str), "tree-type", "tree() returned %s" % type(text))
    raw = text
    if header:
        import hatchet
        ctx.hit("header")
        ctx.expect("v" + hatchet.__version__ in text.split("\n")[4], "header", "no version in the header")
        raw = "\n".join(text.split("\n")[6:])
    def cell(i, c):
        return m.rows[(i, at)].get(c)
    def line(i):
        s = ("%." + str(p) + "f") % cell(i, mets[0])
        if len(mets) > 1:
            s += (" %." + str(p) + "f") % cell(i, mets[1])
        if ann:
            v = cell(i, ann)
            if gf.dataframe[ann].dtype.kind == "f":
                v = float(v)
            if ann == "time_pattern":
                s += " " + PATTERN[v] if v != "none" or not (colour and opts.get("colormap_annotations")) else ""
            else:
                s += " [%s]" % v
        n = cell(i, namecol)
        if len(n) > 39 and not expand:
            ctx.hit("truncated")
            n = n[:18] + "..." + n[-18:]
        s += " " + n
        if marks:
            s += {0: "", 1: " ◀ ", 2: " ▶ "}[cell(i, "_missing_node")]
        if ctxcol:
            s += " " + cell(i, ctxcol)
        return s
    num = {}
    def number(i):                      # the numbering of the nodes: first visits in sorted depth-first order, or in the order the profile gives
        if i not in num:
            num[i] = len(num)
            for c in sorted(m.children[i], key=order):
                number(c)
    order = m.node_order.__getitem__ if m.node_order else m.key
    if m.node_order:
        ctx.hit("node_order")
    for r in sorted(m.roots, key=order):
        number(r)
    want = layout(m, num.get, depth, line)
    body = raw
    legend = ""
    if colour:
        cut = raw.find("\n\033[4mLegend")
        ctx.expect(cut >= 0, "legend", "no legend in colour mode")
        body, legend = raw[:cut], raw[cut:]
    else:
        ctx.expect("\033" not in text, "colour-off", "colour codes without colour", options={k: str(v) for k, v in opts.items()})
    got = ANSI.sub("", body).split("\n")
    ctx.expect(got[-1] == "", "tree-end", "text does not end in a newline")
    got = got[:-1]
    ctx.equal([g.rstrip() for g in got], [w.rstrip() for _, w in want], "tree-lines", "rendered lines", options={k: str(v) for k, v in opts.items()}, shape=m.shape_sig())
    if colour and len(got) == len(want):
        lines = body.split("\n")
        # names are highlighted exactly when asked for, except unknown ones
        for (i, _), l in zip(want, lines):
            ctx.hit("highlight_checks")
            ctx.equal("\033[48;" in l, bool(opts.get("highlight_name")) and "<unknown" not in cell(i, namecol), "highlight", "highlighted name in %r" % l)
        if ann and ann != "time" and opts.get("colormap_annotations"):
            # equal annotations have equal colours; few annotations have different ones
            shown = {}
            for (i, _), l in zip(want, lines):
                v = cell(i, ann)
                if ann == "time_pattern":
                    if v == "none":
                        continue
                    c = re.search("((?:\033\\[[0-9;]*m)+)" + PATTERN[v] + "\033\\[0m", l)
                else:
                    c = re.search(r" \[((?:\033\[[0-9;]*m)+)[^\033]*\033\[0m\]", l)
                ctx.expect(c is not None, "annotation-colour", "annotation %r is not coloured in %r" % (v, l))
                if c:
                    shown.setdefault(v, set()).add(c.group(1))
            ctx.hit("annotation_colours", len(shown))
            ctx.expect(all(len(c) == 1 for c in shown.values()), "annotation-colour", "an annotation has several colours: %r" % shown)
            cm = opts["colormap_annotations"]
            if isinstance(cm, dict):
                ctx.equal({k: min(v) for k, v in shown.items()}, {k: cm[k] for k in shown}, "annotation-dict", "colours of annotations")
            elif len({r[ann] for r in m.rows.values()}) <= (len(cm) if isinstance(cm, list) else 6):
                ctx.equal(len(set(map(min, shown.values()))), len(shown), "annotation-colour", "number of colours of %d annotations" % len(shown))
    if colour:
        ctx.hit("coloured")
        vals = [m.rows[k][mets[0]] for k in m.rows if "rank" not in lv or k[1][lv.index("rank")] == at[lv.index("rank")]]
        fin = [v for v in vals if v == v and abs(v) != float("inf")]
        if fin:
            a = lo if lo is not None else min(fin)
            b = hi if hi is not None else max(fin)
            mm = re.search(r"Min: (\S+) Max: (\S+)\)", ANSI.sub("", legend))
            ctx.equal(mm.groups() if mm else None, ("%.2f" % a, "%.2f" % b), "legend-range", "range of the legend")
            codes = re.findall("(\033\\[[0-9;]*m)█ \033\\[0m(-?[0-9.]+) - (-?[0-9.]+)", legend)
            ctx.equal(len(codes), 6, "legend-steps", "steps of the legend")
            for (_, x, y), (p, q) in zip(codes, [(0.9, 1.0), (0.7, 0.9), (0.5, 0.7), (0.3, 0.5), (0.1, 0.3), (0.0, 0.1)]):
                ctx.expect(abs(float(x) - (a + p * (b - a))) <= 0.0051 + 1e-9 * abs(b) and abs(float(y) - (a + q * (b - a))) <= 0.0051 + 1e-9 * abs(b), "legend-steps", "step %s - %s of the legend for %r..%r" % (x, y, a, b))
            plain = ANSI.sub("", legend)
            ctx.expect("Only in left graph" in plain and "Only in right graph" in plain, "legend-marks", "the legend explains the markers")
            if ann == "time_pattern":
                for sym, word in [(v, k) for k, v in PATTERN.items() if k != "none"]:
                    ctx.expect("%s %s" % (sym, word) in plain, "legend-pattern", "the legend explains %s" % word)
                for x, y in ((0.0, 0.2), (0.2, 0.4), (0.4, 0.6), (0.6, 1.0)):
                    ctx.expect("%s - %s" % (x, y) in plain, "legend-pattern", "the legend shows the scores %s - %s" % (x, y))
            if b > a:
                for (i, _), l in zip(want, body.split("\n")):
                    v = cell(i, mets[0])
                    if v != v:
                        continue
                    mc = ANSI.search(l)
                    share = (v - a) / (b - a)
                    for j, (lo_, hi_) in enumerate([(0.9, 9e99), (0.7, 0.9), (0.5, 0.7), (0.3, 0.5), (0.1, 0.3), (0.0, 0.1)]):
                        if lo_ + 1e-9 < share < hi_ - 1e-9:
                            ctx.hit("colour_checks")
                            ctx.equal(mc.group(0) if mc else None, codes[j][0], "colour", "colour of value %r in range %r..%r" % (v, a, b))
    ctx.hit("multi_index", bool(lv)); ctx.hit("dags", not tree); ctx.hit("two_metrics", len(mets) > 1); ctx.hit("annotated", ann is not None); ctx.hit("pattern", ann == "time_pattern")
    ctx.hit("marked", marks); ctx.hit("context", ctxcol is not None)
    ctx.hit("depth_cut", depth < 10000 and len(want) < len(m.frames))
    if len(want) >= 3:
        ctx.nontrivial(m.shape_sig(), sorted(map(str, opts.items())))
    ctx.sample({"options": {k: str(v) for k, v in opts.items()}, "lines": [w for _, w in want[:4]]})

def refused(ctx, rng):
    """Unknown columns and colour maps are refused."""
    m = gen.gen_graph(rng, max_n=6)
    gen.gen_rows(rng, m, levels=(), exc=("time",), inc=("time (inc)",))
    gf, nodes = gen.build(m)
    old = sys.stdout
    before = obs.snap(gf)
    ctx.hit("refusals")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises(KeyError, lambda: gf.tree(metric_column=rng.choice(["nope", ["nope"], ["time", "nope"], ["nope", "time"]])), "unknown-metric")
        try:
            sys.stdout = Tty()
            ctx.raises(ValueError, lambda: gf.tree(metric_column="time", colormap=rng.choice(["nope", "rdylgn", ""])), "unknown-colormap")
        finally:
            sys.stdout = old
    obs.expect_unchanged(ctx, before, gf, "tree-mutates", "refused tree()")

SCENARIOS = [("refused", refused, 60, 300), ("tree", case, 6000, 20000)]
