"""Scratch working directories and sessions with the in-process driver."""
import json, os, re, select, shutil, signal, subprocess, tempfile, time
import build

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return "/tmp"

INIT = "[setting]\ngstore_mode = single\ndebug_level = simple\n[option]\nbuffer_maxium = 100\n"

class Work:
    """a scratch directory laid out the way gStore expects its working directory"""
    def __init__(self, init=None):
        self.dir = tempfile.mkdtemp(prefix="gsv.", dir=scratch_root())
        for d in ("logs", "backups", ".tmp", ".debug", "lib", "bin", "data", "data/system", "logs/endpoint", "logs/ipaccess", "logs/query_result"):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
        for f in ("init.conf", "conf.ini", "backup.json", "ipAllow.config", "ipDeny.config", "slog.properties", "slog.stdout.properties"):
            s = os.path.join(build.REPO, f)
            if os.path.exists(s):
                shutil.copy(s, self.dir)
        if init:
            p = os.path.join(self.dir, "init.conf")
            t = open(p).read()
            for k, v in init.items():
                t = re.sub(r"(?m)^#?\s*%s\s*=.*$" % k, "%s = %s" % (k, v), t)
            open(p, "w").write(t)
        s = os.path.join(build.REPO, "data/system/system.nt")
        if os.path.exists(s):
            shutil.copy(s, os.path.join(self.dir, "data/system"))
    def path(self, *a):
        return os.path.join(self.dir, *a)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

class Dead(Exception):
    pass

class Session:
    def __init__(self, exe, work, timeout=60, env=None):
        self.work, self.timeout = work, timeout
        e = dict(os.environ); e["HOME"] = work.dir; e["OMP_NUM_THREADS"] = "2"
        if env: e.update(env)
        self.p = subprocess.Popen([exe], cwd=work.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=e, start_new_session=True)
        self.buf = b""
    def cmd(self, _timeout=None, **c):
        try:
            self.p.stdin.write((json.dumps(c) + "\n").encode()); self.p.stdin.flush()
        except BrokenPipeError:
            raise Dead("driver died (status %s) before %s" % (self.p.wait(), json.dumps(c)[:300]))
        end = time.time() + (_timeout or self.timeout)
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.kill()
                raise Dead("driver did not answer within %ss: %s" % (_timeout or self.timeout, json.dumps(c)[:300]))
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                continue
            d = os.read(fd, 1 << 20)
            if not d:
                raise Dead("driver died (status %s) during %s" % (self.p.wait(), json.dumps(c)[:300]))
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line.decode("utf-8", "surrogateescape"))
    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
    def close(self):
        if self.p.poll() is None:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.kill()
        self.p.stdout.close()
    def __enter__(self): return self
    def __exit__(self, *a):
        self.kill() if self.p.poll() is None else None
        self.p.stdout.close()

def term_of(b):
    """term string (N-Triples form) of one SPARQL-JSON binding as gStore writes it"""
    t = b.get("type")
    if t == "uri":
        return "<" + b["value"] + ">"
    if t == "literal":
        s = '"' + b["value"] + '"'
        return s + ("@" + b["lang"] if b.get("lang") else "")
    if t == "typed-literal":
        return '"' + b["value"] + '"^^<' + b["datatype"] + ">"
    return "?" + json.dumps(b, sort_keys=True)

def rows_of(js):
    d = json.loads(js)
    vs = d["head"]["vars"]
    rows = []
    for b in d["results"]["bindings"]:
        rows.append([term_of(b[v]) if v in b else None for v in vs])
    return vs, rows
