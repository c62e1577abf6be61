"""Running TLC: trace validation of batches, model checking, behaviour generation."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
if not os.path.exists(DEPS):
    DEPS = "/opt/veriftools/tla/CommunityModules.jar"

class ToolError(Exception):
    pass

def run(module, cfg=None, env=None, args=(), workers=1, heap="2g", timeout=600, specdir=None, stack="64m"):
    specdir = specdir or os.path.join(VERIF, "spec")
    meta = tempfile.mkdtemp(prefix="tlcm.")
    e = dict(os.environ)
    if env: e.update(env)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-cp", JAR + ":" + DEPS, "tlc2.TLC",
           "-metadir", meta, "-noTE", "-workers", str(workers), "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=specdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return -9, (o.decode(errors="replace") if isinstance(o, bytes) else o) + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def validate(module, events, terms, timeout=600, extra_env=None, heap="3g"):
    """validate one batch: returns (list of (index0, reason), states). ToolError if TLC gave no verdict."""
    d = tempfile.mkdtemp(prefix="trace.")
    try:
        with open(os.path.join(d, "t.ndjson"), "w") as f:
            for ev in events: f.write(json.dumps(ev) + "\n")
        with open(os.path.join(d, "terms.ndjson"), "w") as f:
            for t in (terms or [{"x": 0}]): f.write(json.dumps({k: v for k, v in t.items() if k != "s"}) + "\n")
        env = {"TRACE": os.path.join(d, "t.ndjson"), "TERMS": os.path.join(d, "terms.ndjson")}
        if extra_env: env.update(extra_env)
        rc, out = run(module, env=env, timeout=timeout, heap=heap)
        # TLC breaks long values into lines
        rej = [(int(a) - 1, b) for a, b in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*"(.*?)"\s*>>', out, re.S)]
        if len(rej) != len(re.findall(r'<<\s*"REJECT"', out)): raise ToolError("rejections not understood:\n" + out[-3000:])
        m = re.search(r'<<"VALIDATED", (\d+)>>', out)
        if not m or int(m.group(1)) != len(events):
            keep = os.path.join(VERIF, "build", "tlc_fail"); shutil.rmtree(keep, ignore_errors=True); shutil.copytree(d, keep)
            raise ToolError("TLC gave no verdict on %s (rc %s):\n%s" % (module, rc, out[-3000:]))
        st = re.findall(r"(\d+) states generated", out)
        return rej, int(st[-1]) if st else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

def pmap(f, xs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))
