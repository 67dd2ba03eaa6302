"""Case runner: deterministic seeded workloads, verdict discipline, evidence.

A property module (hv/props/cNN.py) defines
  RULE       how cases are made / what counts as non-trivial
  SCENARIOS  list of (name, fn(ctx, rng), quick_cases, thorough_cases)
  REQUIRED   {counter: minimum} observed events without which a run is inconclusive
  FINDINGS   optional {key: fn(ctx, rng)} fixed witness of each recorded known finding
"""
import argparse, collections, glob, hashlib, importlib, json, os, pickle, random, re, shutil, signal
import sys, tempfile, time, traceback, warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
KNOWN_FILE = os.path.join(HERE, "known_findings.txt")
CPU_LIMIT = 100.0       # CPU seconds one case may burn before it is judged non-terminating
MAX_VIOL = 3            # per worker

class Violation(Exception):
    def __init__(self, key, msg, detail=None):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key, self.msg, self.detail = key, msg, detail

class Skip(Exception):
    """The generated case is outside the property's domain."""

class Inconclusive(Exception):
    pass

class _CpuLimit(BaseException):
    pass

class Ctx:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.case = None
        self._dir = None
        self._cur = None        # file descriptor that names the case in progress

    # -- observation ---------------------------------------------------
    def hit(self, name, n=1):
        self.counters[name] += n

    def nontrivial(self, *sig):
        self.sigs.add(hashlib.blake2b(repr(sig).encode(), digest_size=8).hexdigest())

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # -- verdicts ------------------------------------------------------
    def expect(self, cond, key, msg="", **detail):
        self.counters["assertions"] += 1
        if not cond:
            raise Violation(key, msg, {k: _short(v) for k, v in detail.items()})

    def equal(self, got, want, key, msg="", **detail):
        self.counters["assertions"] += 1
        if not same(got, want):
            raise Violation(key, msg, dict({k: _short(v) for k, v in detail.items()}, got=_short(got), want=_short(want)))

    def raises(self, excs, fn, key, msg=""):
        self.counters["assertions"] += 1
        try:
            r = fn()
        except excs as e:
            return e
        except (_CpuLimit, KeyboardInterrupt):
            raise
        except Exception as e:
            raise Violation(key, "%s: raised %s(%s) instead" % (msg, type(e).__name__, e))
        raise Violation(key, "%s: no error, returned %s" % (msg, _short(r)))

    def tmpdir(self):
        """Scratch directory of this worker, emptied by the runner after each case."""
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="hv-%s-" % self.prop)
        return self._dir

def _short(v, n=1500):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)

def isnan(x):
    try:
        return x != x
    except Exception:
        return False

def same(a, b):
    """Structural equality that treats NaN/None alike and numpy numbers like Python's."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    am, bm = (a is None or isnan(a) is True or _npnan(a)), (b is None or isnan(b) is True or _npnan(b))
    if am or bm:
        return am and bm
    try:
        return bool(a == b)
    except Exception:
        return False

def _npnan(x):
    try:
        return bool(x != x)
    except Exception:
        return False

# ---------------------------------------------------------------------
def load_known(prop):
    """{key: text} of recorded (unrepaired) findings of this property."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

def case_rng(prop, scen, seed, idx):
    return random.Random("%s/%s/%s/%s" % (prop, scen, seed, idx))

def _on_prof(signum, frame):
    raise _CpuLimit()

def _in_repo(tb):
    last = None
    for fr in traceback.extract_tb(tb):
        f = os.path.abspath(fr.filename)
        if f.startswith(os.path.join(REPO, "hatchet") + os.sep):
            last = fr
    return last

def run_case(ctx, scen, fn, idx):
    """Returns None (held / skipped) or a violation record."""
    rng = case_rng(ctx.prop, scen, ctx.seed, idx)
    ctx.case = {"scenario": scen, "index": idx}
    if ctx._cur is not None:
        os.pwrite(ctx._cur, json.dumps(ctx.case).ljust(200).encode(), 0)
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    rec = None
    try:
        fn(ctx, rng)
        ctx.counters["cases"] += 1
        ctx.counters["cases:" + scen] += 1
    except Skip:
        ctx.counters["skipped"] += 1
    except Violation as v:
        rec = {"key": v.key, "msg": v.msg, "detail": v.detail, "trace": traceback.format_exc(limit=-4)}
    except _CpuLimit:
        rec = {"key": "nontermination", "msg": "case used more than %g CPU seconds" % CPU_LIMIT,
               "detail": None, "trace": traceback.format_exc(limit=-8)}
    except (MemoryError, Inconclusive, OSError) as e:
        if isinstance(e, OSError) and _in_repo(sys.exc_info()[2]):
            rec = _crash(e)
        else:
            raise
    except Exception as e:
        rec = _crash(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if ctx._dir:
            shutil.rmtree(ctx._dir, ignore_errors=True)
            ctx._dir = None
    if rec:
        rec.update(ctx.case)
    return rec

def _crash(e):
    fr = _in_repo(sys.exc_info()[2])
    where = "%s:%s" % (os.path.basename(fr.filename), fr.name) if fr else "result-shape"
    return {"key": "crash:%s@%s" % (type(e).__name__, where), "msg": _short(str(e), 400), "detail": None,
            "trace": traceback.format_exc(limit=-8)}

def _worker(mod, prop, seed, tier, w, nw, deadline, path, known):
    ctx = Ctx(prop, seed, tier)
    ctx._cur = os.open(path + ".cur", os.O_RDWR | os.O_CREAT)
    viol, kn, err, done, truncated = [], [], None, 0, False
    try:
        for scen, fn, q, t in mod.SCENARIOS:
            n = q if tier == "quick" else t
            for idx in range(w, n, nw):
                if time.time() > deadline:
                    truncated = True
                    break
                rec = run_case(ctx, scen, fn, idx)
                done += 1
                if rec:
                    (kn if rec["key"] in known else viol).append(rec)
                    if len(viol) >= MAX_VIOL:
                        raise StopIteration
    except StopIteration:
        pass
    except BaseException:
        err = traceback.format_exc()
    with open(path, "wb") as f:
        pickle.dump({"counters": ctx.counters, "sigs": ctx.sigs, "samples": ctx.samples, "viol": viol,
                     "known": kn, "err": err, "done": done, "truncated": truncated}, f)

SAN_EXIT = 77
SANITIZED = ("C40",)    # run with the extensions built for AddressSanitizer and UBSan

def native_death(status, cur, logs):
    """Violation record for a process that native code brought down, else None."""
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else 0
    if sig not in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL) and code != SAN_EXIT:
        return None
    rec = {"key": "native-crash", "msg": "process died: %s" % ("signal %d" % sig if sig else "sanitizer report"),
           "detail": None, "trace": "", "scenario": "?", "index": 0}
    try:
        rec.update(json.loads(open(cur).read()))
    except (OSError, ValueError):
        pass
    text = "".join(open(f, errors="replace").read() for f in logs)
    m = re.search(r"(ERROR: \w+Sanitizer: [\w-]+|runtime error: .*)", text)
    if m:
        rec["key"] = "sanitizer:" + re.sub(r"\W+", "-", m.group(1).replace("ERROR: ", ""))[:60]
        rec["trace"] = text[:4000]
    return rec

def sanitizer_exec():
    from . import build
    import subprocess
    build.build(sanitize=True)
    log = tempfile.mkdtemp(prefix="hv-san-")
    libs = [subprocess.check_output(["gcc", "-print-file-name=lib%s.so" % n], text=True).strip() for n in ("asan", "ubsan", "stdc++")]
    opt = "exitcode=%d:log_path=%s/r:abort_on_error=0:handle_abort=0:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1" % (SAN_EXIT, log)
    env = dict(os.environ, HV_SAN=log, LD_PRELOAD=" ".join(libs), PYTHONMALLOC="malloc", ASAN_OPTIONS=opt,
               UBSAN_OPTIONS="exitcode=%d:halt_on_error=1:print_stacktrace=1:log_path=%s/u" % (SAN_EXIT, log))
    os.execve(sys.executable, [sys.executable, "-c", "import sys; from hv.core import main; sys.exit(main())"] + sys.argv[1:], env)

def main():
    san = os.environ.get("HV_SAN")
    try:
        return main_(san)
    finally:
        if san:
            shutil.rmtree(san, ignore_errors=True)

def main_(san):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    warnings.simplefilter("ignore")
    from . import build
    mod_name = a.prop.lower()
    if a.prop in SANITIZED and not san:
        sanitizer_exec()
    build.load(build.build(sanitize=bool(san)))
    os.environ.pop("LD_PRELOAD", None)
    logs = lambda pid: glob.glob(os.path.join(san, "?.%d" % pid)) if san else []
    with open(os.devnull, "w") as dn:
        so, sys.stdout = sys.stdout, dn
        try:
            import hatchet
        finally:
            sys.stdout = so
    assert os.path.abspath(hatchet.__file__).startswith(REPO + os.sep), hatchet.__file__
    mod = importlib.import_module("hv.props." + mod_name)
    mod.SCENARIOS = [(n, f, max(1, int(q * a.scale)), max(1, int(t * a.scale))) for n, f, q, t in mod.SCENARIOS
                     if not a.only or n == a.only]
    if a.replay:
        return replay(mod, a.prop, a.replay, logs)
    known = load_known(a.prop)
    nw = a.jobs or min(8, os.cpu_count() or 1)
    nw = getattr(mod, "JOBS", nw)
    budget = 420 if a.tier == "quick" else 780
    deadline = t0 + budget
    tmp = tempfile.mkdtemp(prefix="hv-run-")
    try:
        pids, viol0 = {}, []
        sys.stdout.flush(); sys.stderr.flush()
        for w in range(nw):
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    dn = os.open(os.devnull, os.O_RDWR)
                    os.dup2(dn, 1)
                    if not os.environ.get("HV_STDERR"):
                        os.dup2(dn, 2)
                    _worker(mod, a.prop, a.seed, a.tier, w, nw, deadline, os.path.join(tmp, str(w)), known)
                except BaseException:
                    code = 9
                os._exit(code)
            pids[pid] = w
        hard = deadline + 60
        stuck, died = [], []
        while pids:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid:
                w = pids.pop(pid, None)
                rec = native_death(st, os.path.join(tmp, "%d.cur" % w), logs(pid)) if w is not None else None
                if rec:
                    died.append(w)
                    viol0.append(rec)
                continue
            if time.time() > hard:
                for p in pids:
                    stuck.append(pids[p])
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(p, 0)
                pids = {}
            time.sleep(0.02)
        tot = collections.Counter(); sigs = set(); samples = []; viol = viol0; kn = []; errs = []; trunc = False
        for w in range(nw):
            f = os.path.join(tmp, str(w))
            if w in died:
                continue
            if not os.path.exists(f):
                errs.append("worker %d left no result%s" % (w, " (killed by watchdog)" if w in stuck else ""))
                continue
            r = pickle.load(open(f, "rb"))
            tot.update(r["counters"]); sigs |= r["sigs"]; viol += r["viol"]; kn += r["known"]
            samples += r["samples"][:2]
            trunc |= r["truncated"]
            if r["err"]:
                errs.append(r["err"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # fixed witnesses of recorded findings
    ctx = Ctx(a.prop, a.seed, a.tier)
    reproduced = {}
    for key, fn in getattr(mod, "FINDINGS", {}).items():
        so = sys.stdout
        rec = run_case(ctx, "finding:" + key, fn, 0)
        if rec is None:
            continue
        if rec["key"] in known:
            reproduced[rec["key"]] = known[rec["key"]]
        else:
            viol.append(rec)
    for r in kn:
        reproduced[r["key"]] = known[r["key"]]
    tot.update(ctx.counters)
    wall = time.time() - t0
    cov = {
        "evaluations": int(tot["cases"]),
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples[:4] or [{"note": "no sample recorded"}],
        "observed": {k: int(v) for k, v in sorted(tot.items())},
        "workers": nw, "truncated_by_time": trunc,
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ["held on the executions observed; nothing is claimed beyond them"],
          "wall_s": round(wall, 2), "violations": len(viol),
          "known_findings_seen": sorted(reproduced)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(reproduced):
        print("KNOWN-FINDING: property=%s key=%s %s" % (a.prop, k, reproduced[k]))
    print("%s: %d cases (%d skipped), %d distinct non-trivial, %d assertions, %.1fs" % (
        a.prop, tot["cases"], tot["skipped"], len(sigs), tot["assertions"], wall))
    if viol:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        viol.sort(key=lambda r: (r["key"], r["index"]))
        seen = set()
        for r in viol:
            if r["key"] in seen:
                continue
            seen.add(r["key"])
            path = os.path.join(HERE, "out", "%s-%d-%s-%d.json" % (a.prop, a.seed, re.sub(r"\W", "_", r["scenario"]), r["index"]))
            json.dump(dict(r, property=a.prop, seed=a.seed, tier=a.tier), open(path, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print("  key=%s scenario=%s index=%d: %s" % (r["key"], r["scenario"], r["index"], _short(r["msg"], 300)))
            if r["detail"]:
                for k, v in r["detail"].items():
                    print("    %s = %s" % (k, _short(v, 600)))
            print("    " + r["trace"].strip().replace("\n", "\n    ")[-1500:])
        return 1
    if errs:
        print("INCONCLUSIVE: harness error\n" + "\n".join(errs)[:4000])
        return 2
    lack = {k: (tot[k], n) for k, n in getattr(mod, "REQUIRED", {}).items() if tot[k] < (n if a.scale >= 1 and not a.only else 0)}
    if lack or not tot["cases"]:
        print("INCONCLUSIVE: monitors not reached: %s" % lack)
        return 2
    return 0

def replay(mod, prop, path, logs):
    r = json.load(open(path))
    fd, cur = tempfile.mkstemp(prefix="hv-cur-")
    try:
        pid = os.fork()
        if pid == 0:
            os._exit(_replay(mod, prop, path, r, fd))
        _, st = os.waitpid(pid, 0)
        rec = native_death(st, cur, logs(pid))
    finally:
        os.unlink(cur)
    if rec:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(json.dumps(rec, indent=1, default=str))
        return 1
    return os.WEXITSTATUS(st) if os.WIFEXITED(st) else 2

def _replay(mod, prop, path, r, fd):
    ctx = Ctx(prop, r["seed"], r["tier"])
    ctx._cur = fd
    fns = {n: f for n, f, _, _ in mod.SCENARIOS}
    fns.update({"finding:" + k: f for k, f in getattr(mod, "FINDINGS", {}).items()})
    rec = run_case(ctx, r["scenario"], fns[r["scenario"]], r["index"])
    if rec:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print(json.dumps(rec, indent=1, default=str))
    else:
        print("case held")
    sys.stdout.flush()
    return 1 if rec else 0
