import json, os
from .. import gen, obs, readers
RULE = ("pyinstrument JSON files: (a) synthesised from random frame trees (equal siblings, recursion, leaves with and without a children key, extra keys, unicode names), (b) rendered by the installed pyinstrument from sessions "
        "assembled from random sampled stacks; oracle = the JSON tree, whose own exclusive times are recomputed; non-trivial = >=4 frames")
REQUIRED = {"files": 150, "single_frame": 5, "no_children_key": 40, "equal_siblings": 8, "rendered": 40, "read_values": 4000, "unicode": 30, "library_frames": 60, "less_than_callees": 15}

def check(ctx, d, path):
    from hatchet import GraphFrame
    m, frames = gen.Model(), []
    want = {}
    def add(x):
        i = len(frames)
        frames.append({"type": "function", "name": x["function"]}); m.children.append([])
        own = x["time"]
        for c in x.get("children", []):
            own -= c["time"]
        want[i] = {"name": x["function"], "file": x["file_path_short"], "line": x["line_no"], "time (inc)": x["time"], "time": own, "is_application_code": x["is_application_code"]}
        m.children[i] = [add(c) for c in x.get("children", [])]
        return i
    m.roots = [add(d["root_frame"])]
    m.frames = frames
    gf = GraphFrame.from_pyinstrument(path)
    ctx.hit("files"); ctx.hit("single_frame", len(frames) == 1)
    obs.check_gf(ctx, gf, "pyinstrument", every_node_has_rows=True)
    cols = ["name", "file", "line", "time (inc)", "time", "is_application_code"]
    rec = {id(n): r for n, r in zip(gf.dataframe.index, gf.dataframe.to_dict("records"))}
    ctx.equal(len(rec), len(frames), "pyinstrument-rows", "rows")
    # siblings with equal frames are told apart by everything recorded below them
    def sig_d(i):
        return (tuple(val(want[i][c], c) for c in cols), tuple(sorted(map(sig_d, m.children[i]))))
    def sig_n(n):
        r = rec[id(n)]
        return (tuple(val(r[c], c) for c in cols), tuple(sorted(map(sig_n, n.children))))
    ctx.equal(list(gf.dataframe.index.names), ["node"], "pyinstrument-index", "index levels")
    ctx.equal(set(gf.dataframe.columns), set(cols), "pyinstrument-columns", "columns")
    ctx.equal([sig_n(r) for r in gf.graph.roots], [sig_d(r) for r in m.roots], "pyinstrument-tree", "frame tree with its values")
    for n in obs.nodes_of(gf.graph):
        ctx.equal(n.frame.attrs, {"type": "function", "name": rec[id(n)]["name"]}, "pyinstrument-frame", "frame of %r" % rec[id(n)]["name"])
        # exclusive time: what the node's own row and its children's rows say
        own = rec[id(n)]["time (inc)"] - sum(rec[id(c)]["time (inc)"] for c in n.children)
        ctx.expect(abs(own - rec[id(n)]["time"]) <= 1e-9 * max(1, abs(own)), "pyinstrument-exclusive", "exclusive time of %r" % rec[id(n)]["name"], got=rec[id(n)]["time"], want=own)
        ctx.hit("read_values", 6)
    ctx.equal((gf.exc_metrics, gf.inc_metrics), (["time"], ["time (inc)"]), "pyinstrument-metrics", "metrics")
    ctx.hit("library_frames", any(not w["is_application_code"] for w in want.values()))
    if len(frames) >= 4:
        ctx.nontrivial(m.shape_sig(), [f["name"] for f in frames])
    ctx.sample({"frames": len(frames), "root": frames[0]["name"]})

def val(v, c):
    return repr(round(float(v), 6) + 0.0) if c.startswith("time") else repr(v.item() if hasattr(v, "item") else v)

def synth(ctx, rng):
    gm = gen.gen_graph(rng, kind="tree", max_n=rng.choice([1, 3, 8, 20]))
    eq = rng.random() < 0.3
    names = ["<module>", "read", "f", "[self]", "<lambda>", "größe", "日本"]
    def frame(i):
        kids = [frame(c) for c in gm.children[i]]
        inc = sum(k["time"] for k in kids) + rng.choice([0, 0, gen.frac(rng, 1, 400, 0.25)])
        if rng.random() < 0.08 and kids:            # rounding: less than the callees together
            inc = max(inc - rng.choice([0.001, 0.5]), 0)
            ctx.hit("less_than_callees")
        x = {"function": rng.choice(names) if eq or rng.random() < 0.4 else gm.frames[i]["name"], "file_path_short": rng.choice(["a.py", "hatchet/__init__.py", ""]), "file_path": "/x/a.py",
             "line_no": rng.randint(0, 3 if eq else 300), "time": inc, "is_application_code": rng.random() < 0.5}
        ctx.hit("unicode", not x["function"].isascii())
        if rng.random() < 0.5:
            x["await_time"] = 0.0
        if rng.random() < 0.2:
            x["group_id"] = "g"
        if kids or rng.random() < 0.5:
            x["children"] = kids
        else:
            ctx.hit("no_children_key")
        ctx.hit("equal_siblings", len({k["function"] for k in kids}) < len(kids))
        return x
    d = {"start_time": 1.5, "duration": 2.0, "sample_count": 3, "root_frame": frame(gm.roots[0])}
    path = os.path.join(ctx.tmpdir(), "p.json")
    with open(path, "w") as f:
        json.dump(d, f, ensure_ascii=rng.random() < 0.5)
    check(ctx, d, path)

def rendered(ctx, rng):
    """A session of random sampled stacks, rendered to JSON by pyinstrument itself."""
    from pyinstrument.session import Session
    from pyinstrument.renderers import JSONRenderer
    import inspect
    fns = ["main\x00/app/main.py\x001", "run\x00/app/run.py\x0010", "lib\x00/usr/lib/python3/site-packages/lib/x.py\x005", "leaf\x00/app/run.py\x0030", "<lambda>\x00/app/run.py\x0044"]
    recs = []
    for _ in range(rng.randint(1, 25)):
        st = [fns[0]]
        while rng.random() < 0.7 and len(st) < 8:
            st.append(rng.choice(fns[1:]))
        recs.append((st, rng.randint(1, 40) * 0.25))
    kw = dict(frame_records=recs, start_time=1.0, duration=sum(t for _, t in recs), sample_count=len(recs), target_description="p", cpu_time=1.0, start_call_stack=[fns[0]], min_interval=0.001, max_interval=0.001, sys_path=["/app"], sys_prefixes=["/usr"])
    kw = {k: v for k, v in kw.items() if k in inspect.signature(Session.__init__).parameters}
    text = JSONRenderer(show_all=rng.random() < 0.5).render(Session(**kw))
    path = os.path.join(ctx.tmpdir(), "s.json")
    with open(path, "w") as f:
        f.write(text)
    ctx.hit("rendered")
    check(ctx, json.loads(text), path)

SCENARIOS = [("synthesised", synth, 1250, 4000), ("rendered", rendered, 500, 1500)]
