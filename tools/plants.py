"""Planted bugs: writes /verif/seeded/<id>/ from one table and verifies each one (tools/plants.py verify [id...]).

An edit is (file, old text, new text[, n-th occurrence]) on /repo's HEAD.
"""
import json, os, re, shutil, subprocess, sys, tempfile
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = {}
def bug(i, prop, edits, demo, needs, what):
    B[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, what=what)
exec(open(os.path.join(VER, "tools", "planttable.py")).read())

HEAD = "import sys\nfrom demo_lib import S, expect, fail, rows_in_order\ns = S(sys.argv[1], sys.argv[2])\n"
def write(i):
    b = B[i]
    d = os.path.join(VER, "seeded", i)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    out = ""
    by = {}
    for e in b["edits"]:
        f = e[0]
        if f not in by:
            by[f] = subprocess.run(["git", "-C", REPO, "show", "HEAD:" + f], stdout=subprocess.PIPE).stdout.decode("utf-8", "surrogateescape")
        n = e[3] if len(e) > 3 else 0
        parts = by[f].split(e[1])
        if len(e) <= 3:
            assert len(parts) == 2, (i, f, len(parts) - 1, e[1])
        by[f] = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
    for f, txt in by.items():
        a, c = os.path.join(t, "a", f), os.path.join(t, "b", f)
        for p in (a, c):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        open(a, "wb").write(subprocess.run(["git", "-C", REPO, "show", "HEAD:" + f], stdout=subprocess.PIPE).stdout)
        open(c, "wb").write(txt.encode("utf-8", "surrogateescape"))
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE).stdout.decode("utf-8", "surrogateescape")
        out += re.sub(r"(?m)^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", r)
    open(os.path.join(d, "patch.diff"), "wb").write(out.encode("utf-8", "surrogateescape"))
    shutil.rmtree(t)
    for f in ("demo_lib.py", "demo.sh"):
        shutil.copy(os.path.join(VER, "tools", f), os.path.join(d, f))
    shutil.copy(os.path.join(VER, "harness", "gsdrv.cpp"), os.path.join(d, "drv.cpp"))
    open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip("\n") + "\nprint('as it should be')\ns.kill()\n")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)

def sh(c, t=1500):
    r = subprocess.run(c, shell=True, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode("utf-8", "replace")

def verify(i, tests=True, checks=None):
    d = os.path.join(VER, "seeded", i)
    res = {}
    assert sh("git status --porcelain --untracked-files=no")[1].strip() == "", "/repo not clean"
    try:
        c, o = sh("git apply %s/patch.diff" % d)
        if c: return {"apply": o}
        c, o = sh("bash /opt/vp/build.sh")
        res["build"] = c
        if c: return res
        c, o = sh("bash %s/demo.sh" % d, 300)
        res["demo_patched"] = (c, o.strip()[-200:])
        if tests:
            c, o = sh("bash /opt/vp/test.sh /tmp/plant_tests.json")
            base = json.load(open("/opt/vp/BASELINE.json")); got = json.load(open("/tmp/plant_tests.json"))
            stable = set(base.get("stable", base.get("passed", [])))
            res["tests_lost"] = sorted(stable - set(got.get("passed", [])))[:5]
        for p in (checks or [B[i]["prop"]]):
            c, o = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 lib/check.py %s --tier quick" % (VER, p))
            res["check_" + p] = (c, [l for l in o.splitlines() if l.startswith("VIOLATION")][:1])
    finally:
        sh("git checkout -- .")
        sh("bash /opt/vp/build.sh")
    c, o = sh("bash %s/demo.sh" % d, 300)
    res["demo_clean"] = (c, o.strip()[-200:])
    return res

if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "--notest" not in a
    a = [x for x in a if not x.startswith("--")]
    if a and a[0] == "verify":
        for i in (a[1:] or sorted(B)):
            write(i)
            print(i, json.dumps(verify(i, tests)), flush=True)
    elif a and a[0] == "all":   # against every check of the transactions or queries
        write(a[1]); print(a[1], json.dumps(verify(a[1], False, a[2:])), flush=True)
    else:
        for i in sorted(B):
            write(i)
