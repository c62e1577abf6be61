"""Small driver session for the demonstrations: a scratch gStore working directory and the in-process driver."""
import json, os, re, select, shutil, signal, subprocess, sys, time

class S:
    def __init__(self, exe, d):
        self.d, self.exe = d, exe
        for x in ("logs", "backups", ".tmp", ".debug", "lib", "bin", "data/system", "logs/endpoint", "logs/ipaccess", "logs/query_result"):
            os.makedirs(os.path.join(d, x), exist_ok=True)
        for f in ("init.conf", "conf.ini", "backup.json", "ipAllow.config", "ipDeny.config", "slog.properties", "slog.stdout.properties", "data/system/system.nt"):
            if os.path.exists(f):
                shutil.copy(f, os.path.join(d, f))
        self.start()
    def start(self):
        e = dict(os.environ, HOME=self.d, OMP_NUM_THREADS="2")
        self.p = subprocess.Popen([self.exe], cwd=self.d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, start_new_session=True)
        self.buf = b""
    def __call__(self, op, _t=60, **c):
        c["op"] = op
        self.p.stdin.write((json.dumps(c) + "\n").encode()); self.p.stdin.flush()
        end = time.time() + _t
        while b"\n" not in self.buf:
            left = end - time.time()
            r = select.select([self.p.stdout.fileno()], [], [], max(left, 0))[0] if left > 0 else []
            x = os.read(self.p.stdout.fileno(), 1 << 20) if r else b""
            if not x:
                self.kill()
                fail("driver gave no answer to %s" % json.dumps(c)[:200])
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l.decode("utf-8", "surrogateescape"))
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()
    def restart(self):
        self.kill(); self.start()
    def text(self, name, t):
        p = os.path.join(self.d, name)
        open(p, "w").write(t)
        return p
    def fresh(self, nt, load=True):
        self("build", file=self.text("in.nt", nt) if nt else "")
        if load: self("load")
    def q(self, q):
        r = self("query", q=q)
        return rows(r["json"]) if r.get("ret") == -100 else r.get("ret", r)
    def tq(self, tid, q):
        r = self("tquery", tid=tid, q=q)
        return rows(r["json"]) if r.get("json", "").lstrip().startswith("{") else r.get("ret", r)

def term(b):
    if b["type"] == "uri": return "<%s>" % b["value"]
    s = '"%s"' % b["value"]
    return s + ("@" + b["lang"] if b.get("lang") else "^^<%s>" % b["datatype"] if b["type"] == "typed-literal" else "")
def rows(js):
    d = json.loads(js)
    return sorted(tuple(term(b[v]) if v in b else None for v in d["head"]["vars"]) for b in d["results"]["bindings"])
def rows_in_order(js):
    d = json.loads(js)
    return [tuple(term(b[v]) if v in b else None for v in d["head"]["vars"]) for b in d["results"]["bindings"]]
def fail(m):
    print("WRONG: " + m); sys.stdout.flush()
    os._exit(1)
def expect(got, want, what):
    if got != want:
        fail("%s: expected %r, got %r" % (what, want, got))
