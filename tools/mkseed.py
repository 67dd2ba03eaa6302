"""Author's tool: turn planted-bug specs into /verif/seeded/<id>/ and try them.
usage: mkseed.py SPEC.py [ID ...]     SPEC defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=<python source>)}
       mkseed.py --catch ID ...       only re-run the checks against existing seeds
Works on scratch copies under /tmp; never touches /repo."""
import json, os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
S = "/verif/seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def copy(tag):
    d = "/tmp/sw-" + tag
    shutil.rmtree(d, ignore_errors=True)
    sh("cp -a /repo " + d)
    return d

def tests(d):
    # the repository's own tests, on the scratch copy
    out = d + "-t.xml"
    sh("cd %s && rm -f hatchet/cython_modules/*.c hatchet/cython_modules/libs/*.so && /opt/venv/bin/python setup.py build_ext --inplace" % d)
    r = sh("cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider --junitxml=%s hatchet/tests" % (d, d, out), timeout=900)
    import xml.etree.ElementTree as ET
    bad, good = set(), set()
    for tc in ET.parse(out).getroot().iter("testcase"):
        nm = "%s::%s" % (tc.get("classname"), tc.get("name"))
        (bad if any(c.tag in ("failure", "error") for c in tc) else good).add(nm)
    os.remove(out)
    return good, bad

def one(id, b=None, catch_only=False):
    d = copy(id)
    out = []
    try:
        sd = os.path.join(S, id)
        if b is not None:
            os.makedirs(sd, exist_ok=True)
            for f, old, new in b["edits"]:
                p = os.path.join(d, f)
                t = open(p).read()
                if t.count(old) != 1:
                    return id, ["EDIT matches %d times in %s: %r" % (t.count(old), f, old[:60])]
                # original lines only
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C %s diff" % d).stdout
            bl = set()
            for f, _, _ in b["edits"]:
                for ln in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh("git -C %s diff -U0 -- %s" % (d, f)).stdout, re.M):
                    a, n = int(ln.group(1)), int(ln.group(2) or 1)
                    if n:
                        for x in sh("git -C %s blame -s -L %d,%d HEAD -- %s" % (d, a, a + n - 1, f)).stdout.splitlines():
                            if not x.startswith("^ada697b"):
                                bl.add(x)
            if bl:
                out.append("WARN non-original lines: %s" % list(bl)[:2])
            open(sd + "/patch.diff", "w").write(diff)
            open(sd + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(sd + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = repository, after its build\nexport PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(sd + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
            sh("git -C %s checkout -- ." % d)
        meta = json.load(open(sd + "/meta.json"))
        if not catch_only:
            r = sh("cd %s && bash %s/demo.sh" % (d, sd), timeout=300)
            out.append("clean demo rc=%d %s" % (r.returncode, "" if r.returncode == 0 else r.stdout[-300:]))
        a = sh("git -C %s apply %s/patch.diff" % (d, sd))
        if a.returncode:
            return id, out + ["APPLY FAILED " + a.stdout]
        if not catch_only:
            good, bad = tests(d)
            bad = [x for x in bad if x in STABLE]
            if len(good) < 150:
                out.append("TESTS DID NOT RUN")
            out.append("tests: %d pass, stable failing %s" % (len(good), bad[:4]))
            r = sh("cd %s && bash %s/demo.sh" % (d, sd), timeout=300)
            out.append("patched demo rc=%d" % r.returncode + (" ***DEMO DOES NOT FAIL" if r.returncode == 0 else ""))
        r = sh("HV_REPO=%s ./check %s --tier quick --seed 1" % (d, meta["property"]), cwd="/verif", timeout=1200)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append("%s: check rc=%d %s" % (meta["property"], r.returncode, "CAUGHT " + " ".join(re.findall(r"\[(.*?)\]|key=(\S+)", v[0])[0]) if v and re.findall(r"\[(.*?)\]|key=(\S+)", v[0]) else ("CAUGHT" if v else "***MISSED " + r.stdout[-300:])))
    except Exception as e:
        out.append("ERROR %r" % e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return id, out

if __name__ == "__main__":
    if sys.argv[1] == "--catch":
        ids = sys.argv[2:] or sorted(os.listdir(S))
        jobs = [(i, None, True) for i in ids]
    else:
        B = runpy.run_path(sys.argv[1])["BUGS"]
        ids = sys.argv[2:] or list(B)
        jobs = [(i, B[i], False) for i in ids]
    with ThreadPoolExecutor(3) as ex:
        for id, out in ex.map(lambda j: one(*j), jobs):
            print("==", id)
            for o in out:
                print("   ", o)
            sys.stdout.flush()
