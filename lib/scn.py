"""Executing scenarios (sequences of abstract steps) on the real code and logging specification events."""
import os
import gs
from rdf import *

READ_ALL = "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }"

def data_text(ts, kw):
    return "%s DATA { %s }" % (kw, tps_text([tuple({"t": c} for c in t) for t in ts]))

def mod_text(st):
    import rdf
    K = rdf.STYLE.kw
    if st.get("form") == "deletewhere":
        return "DELETE WHERE { %s }" % tps_text(st["del"])
    s = ""
    if st["del"]: s += K("DELETE") + " { %s } " % tps_text(st["del"])
    if st["ins"]: s += K("INSERT") + " { %s } " % tps_text(st["ins"])
    return s + K("WHERE") + " " + group_text(st["where"])

class Run:
    """one scenario on one scratch directory; self.ev: events, self.tx: a readable line per event"""
    def __init__(self, exe, T, init=None, env=None, timeout=60):
        self.exe, self.T, self.env, self.timeout = exe, T, env, timeout
        self.w = gs.Work(init)
        self.s = gs.Session(exe, self.w, timeout=timeout, env=env)
        self.ev, self.tx, self.nf = [], [], 0
        self.dead = False
    def add(self, e, t):
        self.ev.append(e); self.tx.append(t)
    def file(self, text):
        self.nf += 1
        p = self.w.path("f%d.nt" % self.nf)
        with open(p, "w") as f: f.write(text)
        return p
    def fail(self, msg, t):
        self.add({"ev": "fail", "msg": str(msg)[:300]}, t)
    def restart(self):
        self.s.kill()
        self.s = gs.Session(self.exe, self.w, timeout=self.timeout, env=self.env)
    def close(self):
        try: self.s.kill(); self.s.p.stdout.close()
        except Exception: pass
        self.w.close()
    def readall(self, db="d"):
        r = self.s.cmd(op="query", db=db, q=READ_ALL)
        if "exc" in r or r.get("ret") != -100: return None, r
        vs, rows = gs.rows_of(r["json"])
        o = [vs.index(v) for v in ("s", "p", "o")] if set(vs) == {"s", "p", "o"} else None
        if o is None: return None, r
        return [[row[k] for k in o] for row in rows], r
    def run(self, steps):
        for st in steps:
            if self.dead: break
            try:
                self.step(st)
            except gs.Dead as x:
                self.fail(x, str(st)[:400]); self.dead = True
        return self
    def step(self, st):
        k, T, s = st["do"], self.T, self.s
        db = st.get("db", "d")
        if k == "build":
            text = st.get("text")
            if text is None: text = nt(st["ts"])
            r = s.cmd(op="build", db=db, file=self.file(text) if text else "")
            ok = bool(r.get("ok"))
            if ok: ok = bool(s.cmd(op="load", db=db, csr=st.get("csr", False)).get("ok"))
            self.add({"ev": "build", "ok": ok, "ts": T.tr(st["ts"])}, "build from\n" + (text if len(text) < 3000 else text[:3000] + "..."))
            if not ok: self.dead = True
        elif k in ("ins", "del", "mod", "q"):
            t = self.req_text(st)
            self.req_event(st, t, s.cmd(op="query", db=db, q=t))
        elif k == "par":
            self.par(st, db)
        elif k in ("insfile", "delfile", "insfile1", "delfile1"):
            op = {"insfile": "insert_file", "delfile": "remove_file", "insfile1": "insert_file1", "delfile1": "remove_file1"}[k]
            r = s.cmd(op=op, db=db, file=self.file(st.get("text") or nt(st["ts"])))
            e = {"ev": "insert" if k.startswith("ins") else "delete", "ts": T.tr(st["ts"]), "ret": r.get("ret", -1)}
            if k.endswith("1"):
                e["ev"] = "insfile" if k.startswith("ins") else "delfile"     # answers success only
            t = "%s\n%s" % (op, st.get("text") or nt(st["ts"]))
            if "exc" in r: self.fail(r, t); self.dead = True
            else: self.add(e, t + "=> %s" % r)
        elif k == "all":
            rows, r = self.readall(db)
            if rows is None: self.fail(r, "read all")
            else: self.add({"ev": "all", "ts": [[T.id(c) for c in row] for row in rows]}, "read all => %d rows" % len(rows))
        elif k == "info":
            r = s.cmd(op="info", db=db)
            self.add(dict(ev="info", **r), "info => %s" % r)
        elif k == "dump":
            r = s.cmd(op="dump", db=db, views=st.get("views", True), cap=st.get("cap", 400), sample=st.get("sample", 0), seed=st.get("seed", 1))
            self.add(self.dump_event(r), "dump")
        elif k == "save":
            r = s.cmd(op="save", db=db)
            self.add({"ev": "op"} if r.get("ok") else {"ev": "fail", "msg": str(r)}, "save")
        elif k == "reopen":
            s.cmd(op="unload", db=db, save=st.get("save", False))
            if st.get("proc", True):
                s.close(); self.s = s = gs.Session(self.exe, self.w, timeout=self.timeout, env=self.env)
            r = s.cmd(op="load", db=db, csr=st.get("csr", False))
            self.add({"ev": "op"} if r.get("ok") else {"ev": "fail", "msg": "load refused"}, "unload and load again")
            if not r.get("ok"): self.dead = True
        elif k == "crash":
            self.restart()
            r = self.s.cmd(op="load", db=db)
            self.add({"ev": "op"} if r.get("ok") else {"ev": "fail", "msg": "load refused"}, "kill and load again")
            if not r.get("ok"): self.dead = True
        elif k == "export":
            p = self.w.path("exp%d.nt" % len(self.ev))
            s.cmd(op="export", db=db, file=p)
            r = s.cmd(op="build", db="x", file=p)
            ok = r.get("ok") and s.cmd(op="load", db="x").get("ok")
            if not ok: self.fail("the exported file could not be built: %s" % r, "export\n" + open(p).read()[:2000])
            else:
                rows, r = self.readall("x")
                if rows is None: self.fail(r, "read all of the rebuilt export")
                else: self.add({"ev": "all", "ts": [[T.id(c) for c in row] for row in rows]}, "export and build again => %d rows" % len(rows))
            s.cmd(op="unload", db="x")
        elif k in ("tmopen", "tmclose", "ckpt"):
            r = s.cmd(op={"ckpt": "checkpoint"}.get(k, k), db=db)
            if k == "tmopen": self.tid = {}
            self.add({"ev": k} if r.get("ok") else {"ev": "fail", "msg": str(r)}, k)
        elif k == "begin":
            r = s.cmd(op="begin", db=db, iso=st["iso"])
            self.tid[st["t"]] = r.get("tid", -1)
            self.add({"ev": "begin", "t": r.get("tid", -1), "iso": st["iso"]}, "begin level %s => %s" % (st["iso"], r))
        elif k in ("commit", "rollback"):
            t = self.tid.get(st["t"], st["t"])
            r = s.cmd(op=k, db=db, tid=t)
            if "ret" not in r: self.fail(r, "%s %s" % (k, t)); self.dead = True
            else: self.add({"ev": k, "t": t, "ret": r["ret"]}, "%s %s => %s" % (k, t, r["ret"]))
        elif k in ("tins", "tdel", "tmod", "tq"):
            t = self.tid.get(st["t"], st["t"])
            text = self.req_text(st)
            r = s.cmd(op="tquery", db=db, tid=t, q=text)
            self.txn_event(st, k, t, text, r)
        elif k == "serial":
            self.add({"ev": "serial", "ts": T.tr(st["ts"])}, "serializability of the committed transactions")
        elif k == "bad":
            try: r = s.cmd(op="query", db=db, q=st["text"])
            except gs.Dead as x:
                self.fail(x, st["text"]); self.dead = True; return
            ok = "exc" in r or r.get("ret", 0) == -101
            self.add({"ev": "reject"} if ok else {"ev": "fail", "msg": "accepted: %s" % str(r)[:200]}, st["text"])
        else:
            raise ValueError(k)
    def dump_event(self, r):
        """ids are translated to terms through the dictionary the dump itself shows (its bijectivity is judged); 0: no such id"""
        T = self.T
        e = {"ev": "dump", "ents": [[a, T.id(b), c] for a, b, c in r["ents"]], "lits": [[a, T.id(b), c] for a, b, c in r["lits"]],
             "preds": [[a, T.id(b), c] for a, b, c in r["preds"]]}
        eo = {x[0]: x[1] for x in e["ents"] + e["lits"]}; pr = {x[0]: x[1] for x in e["preds"]}
        m = {"s": eo, "o": eo, "p": pr}
        e["views"] = []
        for v in r["views"]:
            ks, es = v["v"].split("2")
            e["views"].append({"v": v["v"], "nd": v["nd"], "k1": m[ks[0]].get(v["k1"], 0), "k2": m[ks[1]].get(v["k2"], 0) if len(ks) > 1 else 0,
                               "l": [m[es[j % len(es)]].get(x, 0) for j, x in enumerate(v["l"])]})
        e["degs"] = [[n, (pr if n == "pdeg" else eo).get(a, 0), pr.get(b, 0), c] for n, a, b, c in r.get("degs", [])]
        return e
    def txn_event(self, st, k, t, text, r):
        T, show = self.T, "[%s] %s\n  => %s" % (t, text, {a: b for a, b in r.items() if a != "json"})
        if "exc" in r or "ret" not in r: self.fail(r, show); self.dead = True; return
        if k == "tq":
            e = {"ev": "task" if st["q"].get("ask") else "tsel", "t": t, "q": enc(st["q"], T), "ret": r["ret"], "vars": [], "rows": [], "ans": False}
            if r["ret"] == -100:
                vs, rows = gs.rows_of(r["json"])
                if e["ev"] == "task": e["ans"] = "true" in str(rows)
                else: e["vars"], e["rows"] = vs, [[T.id(c) for c in row] for row in rows]
                show += " " + str(rows)
        elif k == "tmod":
            e = {"ev": "tupd", "k": "mod", "t": t, "ret": r["ret"], "where": enc(st["where"], T), "ts": [],
                 "del": [x["tp"] for x in enc([{"tp": x} for x in st["del"]], T)], "ins": [x["tp"] for x in enc([{"tp": x} for x in st["ins"]], T)]}
        else:
            e = {"ev": "tupd", "k": k[1:], "t": t, "ret": r["ret"], "ts": T.tr(st["ts"]), "del": [], "ins": [], "where": []}
        if "exp" in st: e["exp"] = st["exp"]; show += " (expected: %s)" % st["exp"]
        self.add(e, show)
    def req_text(self, st):
        """the text of a request; with "sp": written by Spelled"""
        if "sp" not in st: return self.plain_text(st)
        import random, rdf
        return rdf.spelled(random.Random(st["sp"]), lambda: self.plain_text(st))
    def plain_text(self, st):
        k = st["do"]
        if k in ("ins", "del"): return data_text(st["ts"], "INSERT" if k == "ins" else "DELETE")
        if k == "tins" or k == "tdel": return data_text(st["ts"], "INSERT" if k == "tins" else "DELETE")
        if k in ("mod", "tmod"): return mod_text(st)
        return st.get("text") or select_text(st["q"])
    def req_event(self, st, t, r):
        """the event of an update or query outside any transaction"""
        T, k = self.T, st["do"]
        if k != "q":
            if "exc" in r or "ret" not in r: self.fail(r, t); self.dead = True; return
            if k == "mod":
                e = {"ev": "modify", "del": enc([{"tp": x} for x in st["del"]], T), "ins": enc([{"tp": x} for x in st["ins"]], T), "where": enc(st["where"], T)}
                e["del"] = [x["tp"] for x in e["del"]]; e["ins"] = [x["tp"] for x in e["ins"]]
            else: e = {"ev": "insert" if k == "ins" else "delete", "ts": T.tr(st["ts"])}
            self.add(dict(e, ret=r["ret"]), t + "\n  => %s" % r["ret"]); return
        if self.inpar and r.get("ret") == -101:
            self.add({"ev": "select", "ret": -101}, t + "\n  => refused"); return
        if "exc" in r or r.get("ret") != -100:
            self.fail(r, t); return
        vs, rows = gs.rows_of(r["json"])
        if len(rows) > 1500: return      # too many for the specification to count
        q = st["q"]
        if q.get("ask"):
            self.add({"ev": "ask", "q": enc(q, T), "ans": "true" in str(rows)}, t + "\n  => " + str(rows))
        else:
            self.add({"ev": "select", "q": enc(q, T), "vars": vs, "rows": [[T.id(c) for c in row] for row in rows]}, t + "\n  => " + str(vs) + " " + str(rows)[:3000])
    inpar = False
    def par(self, st, db):
        """the step lists of several threads at once; calls and returns are logged in the order they happened"""
        th = []
        for steps in st["threads"]:
            l = []
            for x in steps:
                k = x["do"]; c = dict({y: x[y] for y in ("wait", "opens", "waits", "hold", "stop", "done") if y in x}, us=x.get("us", 0), db=db)
                if k == "begin": c.update(op="begin", iso=x["iso"])
                elif k in ("commit", "rollback"): c.update(op=k)
                elif k[0] == "t": c.update(op="tquery", q=self.req_text(x))
                else: c.update(op="query", q=self.req_text(x))
                if k == "begin": c["as"] = "t%s" % x["t"]
                elif "t" in x: c["tid"] = self.tid[x["t"]] if x["t"] in self.tid else "t%s" % x["t"]
                l.append(c)
            th.append(l)
        r = self.s.cmd(op="par", db=db, threads=th, pseed=st.get("pseed", 0))
        if "threads" not in r: self.fail(r, "par"); self.dead = True; return
        marks, self.inpar = [], True
        import json
        for i, (steps, outs) in enumerate(zip(st["threads"], r["threads"])):
            for x, o in zip(steps, outs):
                o = json.loads(o); k = x["do"]; n = len(self.ev)
                if k == "begin":
                    self.tid[x["t"]] = o.get("tid", -1)
                    self.add({"ev": "begin", "t": o.get("tid", -1), "iso": x["iso"]}, "begin level %s => %s" % (x["iso"], o.get("tid")))
                elif k in ("commit", "rollback"): self.add({"ev": k, "t": o["utid"], "ret": o.get("ret", -9999)}, "%s %s => %s" % (k, o["utid"], o.get("ret")))
                elif k[0] == "t": self.txn_event(x, k, o["utid"], self.req_text(x), o)
                else: self.req_event(x, self.req_text(x), o)
                if len(self.ev) == n: continue
                e, t = self.ev.pop(), self.tx.pop()
                marks += [(o["t0"], {"ev": "call", "id": o["t0"], "e": e}, "(thread %d) %s" % (i, t)), (o["t1"], {"ev": "ret", "id": o["t0"]}, "(thread %d) returns from %s" % (i, t))]
        self.inpar = False
        for _, e, t in sorted(marks, key=lambda m: m[0]): self.add(e, t)
