"""Content-addressed build of gStore objects from /repo's *current* working tree.

The compile commands are the repository's own (taken from `make -n -B` of its makefile), run through a
content-hash cache in /verif/build: an object is reused only if the command, the source and every header it
included have exactly the recorded bytes. Nothing is written below /repo.
"""
import hashlib, json, os, re, shlex, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "g++ -std=c++11 -MMD -MP -I%s/_build/shim/inc" % REPO
_h = {}

def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "-"
    k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
    if k not in _h:
        with open(p, "rb") as f:
            _h[k] = hashlib.sha256(f.read()).hexdigest()
    return _h[k]

def parse_d(p):
    txt = open(p).read().replace("\\\n", " ")
    first = txt.split("\n")[0]
    deps = shlex.split(first.split(":", 1)[1])
    return deps

def compile_one(cmd, src, cwd, variant=""):
    """cmd: list without -o/-c source output; returns object path"""
    objs = os.path.join(BUILD, "obj")
    os.makedirs(objs, exist_ok=True)
    mk = hashlib.sha256((json.dumps(cmd) + "|" + cwd + "|" + src + "|" + variant).encode()).hexdigest()[:24]
    man = os.path.join(objs, mk + ".json")
    entries = []
    if os.path.exists(man):
        try:
            entries = json.load(open(man))
        except Exception:
            entries = []
    for e in entries:
        o = os.path.join(objs, e["obj"])
        if os.path.exists(o) and all(fhash(os.path.join(cwd, d)) == h for d, h in e["deps"].items()):
            return o
    tmp = os.path.join(objs, mk + ".%d.tmp.o" % os.getpid())
    r = subprocess.run(cmd + ["-c", src, "-o", tmp, "-MF", tmp + ".d"], cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise RuntimeError("compile of %s failed:\n%s" % (src, "\n".join(l for l in r.stdout.splitlines() if "error" in l)[:1500]))
    deps = parse_d(tmp + ".d")
    # system headers do not change between runs: skip them to keep the look-up fast
    deps = [d for d in deps if not d.startswith("/usr/")]
    dh = {d: fhash(os.path.join(cwd, d)) for d in deps}
    okey = hashlib.sha256((mk + json.dumps(dh, sort_keys=True)).encode()).hexdigest()[:24] + ".o"
    os.replace(tmp, os.path.join(objs, okey))
    os.unlink(tmp + ".d")
    entries = [e for e in entries if e["obj"] != okey][-3:] + [{"obj": okey, "deps": dh}]
    with open(man + ".%d" % os.getpid(), "w") as f:
        json.dump(entries, f)
    os.replace(man + ".%d" % os.getpid(), man)
    return os.path.join(objs, okey)

def repo_commands(target):
    """compile commands the makefile would run for `target` plus its link line's library flags"""
    mkf = "/opt/vp/gstore.mk" if os.path.exists("/opt/vp/gstore.mk") else "makefile"
    out = subprocess.run(["make", "-n", "-B", "-f", mkf, "march=", "CC=gcc", "CXX=" + CXX, target],
                         cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
    comp, link = [], None
    for line in out.splitlines():
        if not line.startswith("g++ "):
            continue
        w = shlex.split(line)
        if "-c" in w:
            i = w.index("-o")
            obj = w[i + 1]
            srcs = [x for x in w if x.endswith((".cpp", ".c"))]
            if len(srcs) != 1:
                continue
            cmd = [x for j, x in enumerate(w) if x not in ("-c", srcs[0]) and j not in (i, i + 1)]
            comp.append((obj, srcs[0], cmd))
        elif "-o" in w and w[w.index("-o") + 1] == target:
            link = w
    return comp, link

def build_repo(target, variant=None, only=None):
    """returns (list of object paths except the target's own main, link flags)"""
    comp, link = repo_commands(target)
    if not comp or not link:
        raise RuntimeError("could not read the build commands of %s" % target)
    want = [x for x in link if x.endswith(".o")]
    cm = {o: (s, c) for o, s, c in comp}
    missing = [o for o in want if o not in cm]
    if missing:
        raise RuntimeError("no compile command for %s" % missing)
    def one(o):
        s, c = cm[o]
        if variant and (only is None or s.startswith(only)):
            c = c + variant
        return compile_one(c, s, REPO)
    objs = []
    with ThreadPoolExecutor(8) as ex:
        for o, p in zip(want, ex.map(one, want)):
            objs.append((o, p))
    flags = [x for x in link if (x.startswith("-l") or x.startswith("-L") or x in ("-pthread", "-fopenmp"))]
    flags = [("-L" + os.path.join(REPO, x[2:]) if x.startswith("-L.") else x) for x in flags]
    return objs, flags

def build_driver(name, src, with_main_of=None, variant=None, extra=(), base="bin/gbuild", only=None, libs=()):
    """link harness/<src> against the repository's objects; returns path of the executable"""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        objs, flags = build_repo(base, variant, only)
        own_main = ".objs/" + os.path.basename(base) + ".o"
        objs = [p for o, p in objs if o != own_main]
        cxx = shlex.split(CXX) + ["-O1", "-g", "-pthread", "-fopenmp", "-w",
               "-I" + REPO, "-I%s/tools/antlr4-cpp-runtime-4/runtime/src" % REPO, "-I%s/tools/log4cplus/include" % REPO,
               "-I%s/tools/zlib-1.3/include" % REPO, "-I" + os.path.join(VERIF, "harness")] + list(extra) + ([] if only else variant or [])
        mo = compile_one(cxx, os.path.join(VERIF, "harness", src), REPO)
        exe_key = hashlib.sha256(("|".join(sorted(objs)) + mo + "|".join(flags) + "|".join(libs)).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "bin", name + "-" + exe_key)
        if not os.path.exists(exe):
            # keep at most a few links per driver
            old = sorted([f for f in os.listdir(os.path.join(BUILD, "bin")) if f.startswith(name + "-")],
                         key=lambda f: os.path.getmtime(os.path.join(BUILD, "bin", f)))
            for f in old[:-2]:
                os.unlink(os.path.join(BUILD, "bin", f))
            r = subprocess.run(["g++", "-o", exe + ".tmp", mo] + objs + flags + list(libs) + ["-ldl"] + ([] if only else variant or []),
                               cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                raise RuntimeError("link failed:\n" + r.stdout[-4000:])
            os.replace(exe + ".tmp", exe)
        return exe
    finally:
        lock.close()

def build_tool(name):
    """one of the repository's own executables (bin/<name>) linked from cached objects"""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        objs, flags = build_repo("bin/" + name)
        objs = [p for _, p in objs]
        key = hashlib.sha256(("|".join(objs) + "|".join(flags)).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "bin", "tool_" + name + "-" + key)
        if not os.path.exists(exe):
            for f in os.listdir(os.path.join(BUILD, "bin")):
                if f.startswith("tool_" + name + "-"):
                    os.unlink(os.path.join(BUILD, "bin", f))
            r = subprocess.run(["g++", "-o", exe + ".tmp"] + objs + flags + ["-ldl"], cwd=REPO, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode != 0:
                raise RuntimeError("link failed:\n" + r.stdout[-4000:])
            os.replace(exe + ".tmp", exe)
        return exe
    finally:
        lock.close()
