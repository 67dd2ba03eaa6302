import os
from .. import gen, obs, readers
RULE = ("TAU profile directories written from random call trees: 1-3 metrics in MULTI__ directories, rank and thread sets with gaps, call paths differing per rank and thread, every event form (plain, C, sampled, unwound, "
        "typed, with module), events seen as parents first, fractional and huge values, user events; oracle = the written records; non-trivial = >=4 call paths")
REQUIRED = {"directories": 250, "multi_metric": 70, "multi_rank": 70, "multi_thread": 60, "rank_and_thread": 30, "absent_records": 300, "filled_rows": 300, "user_events": 60, "context_events": 30, "parent_after_child": 60, "no_time_metric": 15,
            "fractional": 60, "form_plain": 100, "form_c": 60, "form_bracket": 60, "form_unwind": 60, "form_unwind_bare": 60, "form_module": 60, "form_sample": 60, "read_values": 8000, "equal_names": 60, "module_app": 30, "parsed_root": 20, "two_times": 15}
SRC = ["/home/u/app/main.c", "lulesh.cc", "/p/g1/x/solver.f90", "util.cpp"]
LIB = ["/usr/lib64/libc.so.6", "/opt/lib/libmpi.so"]
MOD = LIB + ["/home/u/bin/app", "./build/lulesh2.0"]

def event(ctx, rng, name):
    """(event text, name, file, module, line, end line)"""
    k = rng.choice(["plain", "plain", "plain", "c", "bracket", "unwind", "unwind_bare", "module", "sample", "typed"])
    a, b = rng.randint(1, 900), rng.randint(901, 2000)
    ctx.hit("form_" + k)
    f = rng.choice(SRC)
    sig = name + rng.choice(["", "()", "(int, char **)", "(std::vector<double> &)"])
    lines, want = rng.choice([("{%d,1}-{%d,2}" % (a, b), (a, b)), ("{%d,0}" % a, (a, 0)), ("{%d}" % a, (a, 0))])
    if k == "plain":
        sig += rng.choice(["", "", "  "])
        return sig, sig.strip(), None, None, 0, 0
    if k == "c":
        return "%s C [{%s} %s]" % (sig, f, lines), sig, f, None, want[0], want[1]
    if k == "bracket":
        return "%s [{%s} %s]" % (sig, f, lines), sig, f, None, want[0], want[1]
    if k == "typed":
        t = rng.choice(["[CONTEXT] %s", "[OpenMP] %s"])
        return t % name, t % name, None, None, 0, 0
    if k == "sample":
        return "[SAMPLE] %s [{%s} {%d}]" % (sig, f, a), "[SAMPLE] " + sig, f, None, a, 0
    if k == "unwind":
        return rng.choice([("[UNWIND] %s [@] %s [{%s} {%d}]" % (f, sig, f, a), "[UNWIND] " + sig, f, None if ".c" in f else f, a, 0),
                           ("[UNWIND] %s [@] %s [{%s} {0}]" % (LIB[0], sig, LIB[0]), "[UNWIND] " + sig, None, LIB[0], 0, 0),
                           ("[UNWIND] %s [@] %s [{%s} {%d}]" % (f, sig, LIB[1], a), "[UNWIND] " + sig, f, LIB[1], a, 0)])
    if k == "unwind_bare":
        mod = rng.choice(MOD)
        return "[UNWIND] %s [@] %s %s" % (f, name, mod), "[UNWIND] " + name, f, mod, 0, 0
    mod = rng.choice(MOD)
    ctx.hit("module_app", ".so" not in mod)
    return "[SAMPLE] %s %s" % (name, mod), "[SAMPLE] " + name, None, mod, 0, 0

def norm(v):
    return None if v is None or v != v else v

def case(ctx, rng):
    from hatchet import GraphFrame
    gm = gen.gen_graph(rng, kind="tree", max_n=rng.choice([2, 5, 10, 18]))
    n = len(gm.frames)
    ev = [None] * n
    twins = rng.choice([0, 0, 0.6])
    root = rng.choice([".TAU application", ".TAU application", ".TAU application", None])
    def name_of(i):
        return gm.frames[i]["name"].replace(" ", "_").replace("/", "_")
    def fill(i, e):
        ev[i] = e
        used, names = set(), set()
        for c in gm.children[i]:
            while True:
                if rng.random() < twins:
                    l, f = rng.randint(1, 900), rng.choice(SRC)
                    e = ("twin() [{%s} {%d,0}]" % (f, l), "twin()", f, None, l, 0)
                else:
                    e = event(ctx, rng, name_of(c))
                k = (e[1], e[2], e[3], e[4])
                if k not in used and e[0].strip() not in used:
                    break
                if rng.random() < 0.2:
                    gm.frames[c]["name"] += "x"
            used |= {k, e[0].strip()}
            ctx.hit("equal_names", e[1] in names)
            names.add(e[1])
            fill(c, e)
    r = gm.roots[0]
    if root:
        fill(r, (root, root, None, None, 0, 0))
    else:
        e = "int main(int, char **)"
        if rng.random() < 0.7:
            ctx.hit("parsed_root")
            fill(r, (e + " C [{/a/main.c} {3,1}-{40,1}]", e, "/a/main.c", None, 3, 40))
        else:
            fill(r, (e, e, None, None, 0, 0))
    m = gen.Model()
    m.roots, m.children, m.frames = gm.roots, gm.children, [{"type": "function", "name": e[1]} for e in ev]
    paths = [None] * n
    def walk(i, p):
        paths[i] = p + [ev[i][0]]
        for c in gm.children[i]:
            walk(c, paths[i])
    walk(r, [])
    mets = rng.sample(["TIME", "PAPI_L2_TCM", "PAPI_TOT_CYC", "CPU_TIME"], rng.choice([1, 1, 2, 3]))
    if rng.random() < 0.6 and not {"TIME", "CPU_TIME"} & set(mets):
        mets[0] = "TIME"
    both = {"TIME", "CPU_TIME"} <= set(mets)
    ctx.hit("two_times", both)
    disp = {x: "time" if x == "TIME" or (x == "CPU_TIME" and not both) else x for x in mets}
    ctx.hit("multi_metric", len(mets) > 1); ctx.hit("no_time_metric", "time" not in disp.values())
    ranks = sorted(rng.sample(list(range(12)) + [100, 128, 1023], rng.randint(1, 4))) if rng.random() < 0.6 else [0]
    threads = sorted(rng.sample([0, 1, 2, 3, 4, 10, 11, 21, 130], rng.randint(1, 3))) if rng.random() < 0.4 else [0]
    profs = [(a, t) for a in ranks for t in threads if rng.random() < 0.9 or t == threads[0]]
    mr, mt = any(a != 0 for a, _ in profs), any(t != 0 for _, t in profs)
    if 1 == len(profs) and (mr or mt):
        profs, mr, mt = [(0, 0)], False, False
    ctx.hit("multi_rank", mr); ctx.hit("multi_thread", mt); ctx.hit("rank_and_thread", mr and mt)
    # which paths each profile records (prefix-closed); every path is recorded somewhere
    rec = {p: {r} for p in profs}
    def spread(i):
        for c in gm.children[i]:
            where = [p for p in profs if i in rec[p]]
            some = [p for p in where if rng.random() < 0.75] or [rng.choice(where)]
            for p in some:
                rec[p].add(c)
            spread(c)
    spread(r)
    def num(kind):
        if kind == "frac":
            ctx.hit("fractional")
            return rng.choice([repr(gen.frac(rng, 1, 4000)), "1.5E+17"])
        return str(rng.randint(0, 10 ** rng.choice([1, 4, 9])))
    d = ctx.tmpdir()
    base = os.path.join(d, rng.choice(["prof", "run.1", "tau [2]"]))
    kind = rng.choice(["int", "int", "frac"])
    want, first = {}, {}
    for p in profs:
        order = [i for i in sorted(rec[p]) if i != r]
        if rng.random() < 0.5:
            rng.shuffle(order)
        seen = {r}
        for i in order:
            par = next(x for x in range(n) if i in gm.children[x])
            ctx.hit("parent_after_child", par not in seen)
            seen.add(i)
        vals = {i: [str(rng.randint(1, 99)), str(rng.randint(0, 9))] + [num(kind) for _ in range(2 * len(mets))] for i in rec[p]}
        uev = rng.random() < 0.4
        ctx.hit("user_events", uev)
        flat = [i for i in order if rng.random() < 0.5]
        cev = uev and rng.random() < 0.6
        ctx.hit("context_events", cev)
        lead = rng.random() < 0.5
        for k, x in enumerate(mets):
            sub = base if len(mets) == 1 else os.path.join(base, "MULTI__" + x)
            os.makedirs(sub, exist_ok=True)
            line = lambda text, i, g: '"%s" %s %s %s %s 0 GROUP="%s" \n' % (text, vals[i][0], vals[i][1], vals[i][2 + 2 * k], vals[i][3 + 2 * k], g)
            out = [line(ev[r][0], r, "TAU_DEFAULT")]
            for i in order:
                if i in flat and lead:
                    out.append(line(ev[i][0], i, "TAU_USER"))
                out.append(line(" => ".join(paths[i]), i, "TAU_CALLPATH|MPI"))
                if i in flat and not lead:
                    out.append(line(ev[i][0], i, "TAU_USER"))
            with open(os.path.join(sub, "profile.%d.0.%d" % p), "w") as f:
                f.write("%d templated_functions_MULTI_%s\n" % (len(out), x))
                f.write("# Name Calls Subrs Excl Incl ProfileCalls # <metadata><attribute><name>Metric Name</name><value>%s</value></attribute><attribute><name>Command Line</name><value>./a.out %s</value></attribute></metadata>\n"
                        % (x, rng.choice(["-n 3", "-n 3", "-t a # b"])))
                f.writelines(out)
                f.write("0 aggregates\n")
                if uev:
                    f.write('%d userevents\n# eventname numevents max min mean sumsqr\n"Message size" 1 4 4 4 16\n' % (1 + cev))
                    if cev:
                        f.write('"Message size : %s" 1 8 8 8 64\n' % " => ".join(paths[max(rec[p])] if len(paths[max(rec[p])]) > 1 else [ev[r][0], "foo"]))
        for i in rec[p]:
            w = {"name": ev[i][1], "file": ev[i][2], "module": ev[i][3], "line": ev[i][4], "end_line": ev[i][5], "Calls": float(vals[i][0]), "Subrs": float(vals[i][1])}
            for k, x in enumerate(mets):
                w[disp[x]], w[disp[x] + " (inc)"] = float(vals[i][2 + 2 * k]), float(vals[i][3 + 2 * k])
            want[(i, p)] = w
    gf = GraphFrame.from_tau(base)
    ctx.hit("directories")
    levels = (["rank"] if mr else []) + (["thread"] if mt else [])
    obs.check_gf(ctx, gf, "tau", every_node_has_rows=True)
    ctx.equal(list(gf.dataframe.index.names), ["node"] + levels, "tau-index", "index levels")
    info = {}
    for node, f, mo, l in zip(gf.dataframe.index.get_level_values("node"), gf.dataframe["file"], gf.dataframe["module"], gf.dataframe["line"]):
        if id(node) not in info or info[id(node)][2] == 0:
            info[id(node)] = (None if f != f else f, None if mo != mo else mo, int(l))
    to = readers.match(ctx, gf, m, None, (lambda i: (ev[i][2], ev[i][3], ev[i][4]), lambda nd: info.get(id(nd))))
    back = {id(x): i for i, x in to.items()}
    ctx.equal(set(gf.dataframe.columns), {"name", "file", "module", "line", "end_line", "Calls", "Subrs"} | {v + s for v in disp.values() for s in ("", " (inc)")} | ({"rank", "thread"} - set(levels) if not levels else set()), "tau-columns", "columns")
    seen = set()
    for idx, row in zip(gf.dataframe.index, gf.dataframe.to_dict("records")):
        node, key = (idx[0], tuple(int(x) for x in idx[1:])) if levels else (idx, ())
        i = back[id(node)]
        p = (key[0] if mr else 0, key[-1] if mt else 0)
        ctx.expect((i, p) not in seen, "tau-rows", "two rows of %s" % ((i, p),))
        seen.add((i, p))
        w = want.get((i, p))
        for c in ("name", "file", "module"):
            ctx.expect(norm(row[c]) == norm(ev[i][{"name": 1, "file": 2, "module": 3}[c]]), "tau-text", "%s of event %r" % (c, ev[i][0]), got=row[c], want=ev[i][1:4])
        for c in (w or {}):
            if c not in ("name", "file", "module"):
                ctx.equal(float(row[c]), float(w[c]), "tau-value", "%s of event %r at %s" % (c, ev[i][0], p))
                ctx.hit("read_values")
        if w is None:
            ctx.hit("absent_records")
            for v in disp.values():
                for s in ("", " (inc)"):
                    x = row[v + s]
                    ctx.expect(x != x or x == 0, "tau-absent", "%s of %r at %s was not recorded" % (v + s, ev[i][0], p), got=x)
    ctx.expect(set(want) <= seen, "tau-rows", "records without row", got=sorted(set(want) - seen))
    # a call path absent from a profile is filled in: a row for every rank, or for every thread of a rank it was seen in
    last = {p[-1] if mt else p[0] for p in profs}
    filled = {(i, p[:1] + (t,) if mt else (t, 0)) for i, p in want for t in last} if levels else seen
    ctx.expect(filled <= seen, "tau-rows", "call paths without a row for a rank or thread they were not recorded in", got=sorted(filled - seen)[:5])
    ctx.hit("filled_rows", len(filled) - len(want))
    readers.metrics(ctx, gf, list(disp.values()), [v + " (inc)" for v in disp.values()])
    ctx.expect(gf.default_metric in gf.dataframe.columns, "tau-default", "default metric %r is no column" % gf.default_metric)
    if n >= 4:
        ctx.nontrivial(m.shape_sig(), sorted(profs), sorted(mets))
    ctx.sample({"paths": n, "profiles": profs, "metrics": mets})

SCENARIOS = [("directories", case, 2000, 6000)]
