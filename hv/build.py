"""Builds the Cython extensions from /repo's current .pyx files, outside /repo.

Result directories are content-keyed under /verif/.build (git-ignored); nothing is
written in /repo.  `load()` puts the freshly built modules in sys.modules so that the
package imports them instead of whatever .so lies in the tree."""
import glob, hashlib, importlib.machinery, importlib.util, os, shutil, subprocess, sys, sysconfig, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
PYX_DIR = os.path.join(REPO, "hatchet", "cython_modules")
MODS = tuple(sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(PYX_DIR, "*.pyx"))))

def build(sanitize=False):
    srcs = {m: os.path.join(PYX_DIR, m + ".pyx") for m in MODS}
    h = hashlib.sha256(b"v3-san" if sanitize else b"v3")
    extra = sorted(glob.glob(os.path.join(PYX_DIR, "*.pxd")) + glob.glob(os.path.join(PYX_DIR, "*.pxi")))
    for f in list(srcs.values()) + extra:
        h.update(f.encode() + open(f, "rb").read())
    out = os.path.join(HERE, ".build", h.hexdigest()[:20])
    if os.path.exists(os.path.join(out, "ok")):
        return out
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(HERE, ".build"))
    import numpy
    inc = sysconfig.get_paths()["include"]
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    jobs = []
    for f in extra:
        shutil.copy(f, tmp)
    for m in MODS:
        shutil.copy(srcs[m], os.path.join(tmp, m + ".pyx"))
        cmd = "%s -m cython --module-name hatchet.cython_modules.libs.%s %s.pyx -o %s.c" % (sys.executable, m, m, m)
        flags = "-fwrapv -O1" if not sanitize else "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
        cmd += " && gcc -shared -fPIC %s -w -I%s -I%s %s.c -o %s%s" % (
            flags, inc, numpy.get_include(), m, m, ext)
        jobs.append(subprocess.Popen(cmd, shell=True, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for j in jobs:
        o, _ = j.communicate()
        if j.returncode:
            sys.stderr.write(o.decode(errors="replace"))
            shutil.rmtree(tmp, ignore_errors=True)
            raise SystemExit("extension build failed")
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)   # someone else built it meanwhile
    return out

def load(path):
    """Import the built extension modules under their package names."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for m in MODS:
        full = "hatchet.cython_modules.libs." + m
        if full in sys.modules:
            continue
        f = glob.glob(os.path.join(path, m + ".*so"))[0]
        loader = importlib.machinery.ExtensionFileLoader(full, f)
        spec = importlib.util.spec_from_file_location(full, f, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        loader.exec_module(mod)
        sys.modules[full] = mod

if __name__ == "__main__":
    print(build()); print(build(sanitize=True))
