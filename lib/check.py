"""Common part of every check: run scenarios on the real code, validate the logs with TLC, report."""
import argparse, json, multiprocessing, os, random, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, gs, tlc, rdf, scn

VERIF = build.VERIF
DRV = None

def driver():
    return build.build_driver("gsdrv", "gsdrv.cpp")

def race_driver():
    """the driver with schedule perturbation: every function of the storage, transaction and query code may pause"""
    return build.build_driver("gsrace", "gsdrv.cpp", extra=["-DPERTURB"], only=("Database/", "KVstore/", "Query/", "Util/", "StringIndex/"),
                              variant=["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/"])

def chunks(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]

def _batch(args):
    """scenarios -> events -> TLC; returns (rejects, number of events, states, kinds, error)"""
    exe, scs, module, deadline = args
    try:
        T = rdf.Terms()
        evs, owner = [], []
        for sc in scs:
            if time.time() > deadline: break
            r = scn.Run(exe, T, sc.get("init"), sc.get("env"), sc.get("timeout", 60))
            try:
                r.run(sc["steps"])
            finally:
                r.close()
            evs += [{"ev": "reset"}] + r.ev
            owner += [(sc, "start")] + [(sc, t) for t in r.tx]
        rej, states = tlc.validate(module, evs, T.l, timeout=800)
        kinds = {}
        for e in evs: kinds[e["ev"]] = kinds.get(e["ev"], 0) + 1
        out, seen = [], set()
        for i, w in rej:
            sc, t = owner[i]
            if w.startswith('content:'): w = re.sub(r"\d+(?=,|>>)", lambda m: T.l[int(m.group()) - 1]["s"] if 0 < int(m.group()) <= len(T.l) else m.group(), w)
            if id(sc) in seen: continue      # the first rejected event of a scenario
            seen.add(id(sc))
            first = min(j for j in range(len(owner)) if owner[j][0] is sc)
            out.append({"scenario": sc, "why": w, "text": t, "log": [x for _, x in owner[first:i + 1]][-40:]})
        return out, len(evs), states, kinds, len({id(o[0]) for o in owner}), None
    except Exception:
        return [], 0, 0, {}, 0, traceback.format_exc()

def run_scenarios(exe, scs, module="StoreTrace", nproc=8, limit=420):
    """-> list of confirmed rejections, totals. A rejection counts when the scenario is rejected again on its own."""
    deadline = time.time() + limit
    parts = chunks(scs, nproc * max(1, len(scs) // (nproc * 40)))
    with multiprocessing.Pool(nproc) as pool:
        res = pool.map(_batch, [(exe, p, module, deadline) for p in parts], chunksize=1)
        errs = [r[5] for r in res if r[5]]
        if errs: raise tlc.ToolError(errs[0])
        rej = [x for r in res for x in r[0]]
        tot = {"events": sum(r[1] for r in res), "states": sum(r[2] for r in res), "scenarios": sum(r[4] for r in res), "kinds": {}}
        for r in res:
            for k, n in r[3].items(): tot["kinds"][k] = tot["kinds"].get(k, 0) + n
        again = []
        if rej:
            rr = pool.map(_batch, [(exe, [x["scenario"]], module, time.time() + 300) for x in rej[:int(os.environ.get("REJMAX","8"))]], chunksize=1)
            for x, r in zip(rej, rr):
                if r[5]: raise tlc.ToolError(r[5])
                if r[0]: again.append(r[0][0])
                elif x["scenario"].get("racy"): again.append(x)
    tot["unconfirmed"] = min(len(rej), 8) - len(again)
    return again, tot

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.viol, self.known = [], []
        self.states = self.trans = self.traces = self.evals = 0
        self.samples, self.kinds, self.notes = [], {}, []
        self.mc = []
    def rng(self, *a):
        return random.Random("%s|%s|%s" % (self.prop, self.seed, "|".join(map(str, a))))
    def store(self, exe, scs, module="StoreTrace", limit=None):
        rej, tot = run_scenarios(exe, scs, module, limit=limit or (420 if self.quick else 3600))
        self.states += tot["states"]; self.trans += tot["events"]; self.traces += tot["scenarios"]
        for k, n in tot["kinds"].items(): self.kinds[k] = self.kinds.get(k, 0) + n
        for x in rej: self.violation(x["why"], x)
        if scs: self.samples += ["%s: %s" % (s.get("name", "scenario"), "; ".join(st["do"] for st in s["steps"])[:160]) for s in (scs[0], scs[-1])]
        return rej, tot
    def model(self, module, cfg, expect=None, **k):
        """model-check a bounded instance; a failure of the specification itself is a tool error"""
        rc, out = tlc.run(module, cfg, **k)
        import re
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0: raise tlc.ToolError("model checking %s/%s failed (rc %s)\n%s" % (module, cfg, rc, out[-3000:]))
        if m:
            self.states += int(m[-1][1]); self.trans += int(m[-1][0])
            self.mc.append("%s/%s: %s distinct states" % (module, cfg, m[-1][1]))
    def probes(self, exe, module="StoreTrace"):
        """the recorded known findings of this property: print those that still fail"""
        f = os.path.join(VERIF, "known-findings.json")
        if not os.path.exists(f): return
        for k in json.load(open(f))["findings"]:
            if k["property"] != self.prop or "steps" not in k: continue
            r = _batch((exe, [{"steps": k["steps"], "name": k["id"], "init": k.get("init")}], module, time.time() + 120))
            if r[5]: raise tlc.ToolError(r[5])
            if r[0]:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"])); self.known.append(k["id"])
    def violation(self, why, detail):
        d = os.path.join(VERIF, "build", "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.seed, len(self.viol) + 1))
        with open(p, "w") as f: json.dump({"property": self.prop, "why": why, "detail": detail}, f, indent=1, default=str)
        self.viol.append((why, p))
    def finish(self, level="model_checking", assumptions=(), coverage_extra=None, min_events=1):
        if self.trans < min_events and not self.viol:
            raise tlc.ToolError("nothing was explored")
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
               "samples": (self.mc + self.samples)[:12] or ["-"]}
        if self.kinds: cov["samples"].append("events by kind: " + json.dumps(self.kinds, sort_keys=True))
        if coverage_extra: cov.update(coverage_extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(self.seed), "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for why, p in self.viol:
            print("%s: %s" % (self.prop, why[:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s: %d scenarios, %d events, %d violations, %.1f s" % (self.prop, self.traces, self.trans, len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a = ap.parse_args()
    import props
    for attempt in (1, 2):
        try:
            c = Check(a.prop, a.tier, a.seed)
            rc = getattr(props, a.prop)(c)
            sys.stdout.flush()
            return rc
        except Exception:
            traceback.print_exc()
            if attempt == 2: return 2
            time.sleep(2)

if __name__ == "__main__":
    sys.exit(main())
