"""Triage helper: shrink a rejected scenario of one build and one query (VERIF_REPO, a replay file or a name of a generator run).
usage: reduce.py REPLAY.json   - prints the smallest data and query that the specification still rejects"""
import copy, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, sgen
from rdf import *

def lists(x, path=()):
    """paths of the lists and optional parts of a query that can lose an element"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from lists(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield path, i
            yield from lists(v, path + (i,))

def drop(q, path, i):
    q = copy.deepcopy(q); y = q
    for k in path: y = y[k]
    del y[i]
    return q

def unnest(q, path, i):
    """replace a group / optional / union element by the elements of (one of) its groups"""
    y = q
    for k in path: y = y[k]
    e = y[i]
    if not isinstance(e, dict) or "el" not in e: return []
    out = []
    for g in ([e["g"]] if "g" in e else e.get("gs", [])) + ([e["q"]["where"]] if e["el"] == "sub" and "where" in e["q"] else []):
        z = copy.deepcopy(q); w = z
        for k in path: w = w[k]
        w[i:i + 1] = copy.deepcopy(g)
        out.append(z)
    return out

def sound(x):
    """a reduction that is still a request the generators could write"""
    if isinstance(x, list): return all(sound(y) for y in x)
    if not isinstance(x, dict): return True
    if x.get("el") == "union" and len(x["gs"]) < 2: return False
    ok = lambda g: g and g[0]["el"] in ("tp", "group", "union", "sub", "path")
    if any(k in x and not ok(x[k]) for k in ("g", "where")): return False
    if "gs" in x and not all(ok(g) for g in x["gs"]): return False
    return all(sound(y) for y in x.values())

def fails(exe, cands, module):
    scs = [{"name": "c%d" % i, "steps": s} for i, s in enumerate(cands)]
    os.environ["REJMAX"] = "1000"
    rej, _ = check.run_scenarios(exe, scs, module)
    return {x["scenario"]["name"]: x for x in rej}

def main():
    d = json.load(open(sys.argv[1])); sc = d["detail"]["scenario"]
    module = sys.argv[2] if len(sys.argv) > 2 else "StoreTrace"
    exe = check.driver()
    steps = sc["steps"]
    # the step that fails: the first prefix that is rejected
    qs = [i for i, s in enumerate(steps) if s["do"] in ("q",)]
    builds = [s for s in steps if s["do"] == "build"]
    cur = None
    if all(s["do"] in ("build", "q") for s in steps):
        f = fails(exe, [[builds[-1], steps[i]] for i in qs], module)
        if not f: print("not reproduced"); return
        i = min(int(k[1:]) for k in f)
        cur = [builds[-1], steps[qs[i]]]; last = f["c%d" % i]
    else:
        cur = steps; last = None
    cur = json.loads(json.dumps(cur))
    while True:
        cands = []
        for si, s in enumerate(cur):
            if len(cur) > 2 and si: cands.append(cur[:si] + cur[si + 1:])
            if "ts" in s:
                n = len(s["ts"])
                for w in (n // 2, n // 4, 1):
                    if w:
                        for k in range(0, n, w): cands.append(cur[:si] + [dict(s, ts=s["ts"][:k] + s["ts"][k + w:])] + cur[si + 1:])
            if "sp" in s: cands.append(cur[:si] + [{k: v for k, v in s.items() if k != "sp"}] + cur[si + 1:])
            if "q" in s:
                for p, i in lists(s["q"]):
                    if p and (p[-1] in ("tp", "a", "args") or "e" in p): continue
                    for z in [drop(s["q"], p, i)] + unnest(s["q"], p, i): cands.append(cur[:si] + [dict(s, q=z)] + cur[si + 1:])
                for k in ("distinct",):
                    if s["q"].get(k): cands.append(cur[:si] + [dict(s, q=dict(s["q"], **{k: False}))] + cur[si + 1:])
        cands = [c for c in cands if sound(c)]
        f = {}
        good = []
        for k in range(0, len(cands), 400):
            try: f = fails(exe, cands[k:k + 400], module)
            except Exception as x:
                f = {}
                for j in range(k, min(k + 400, len(cands))):        # some reduction is not a query at all: one by one
                    try: f.update({"c%d" % (j - k): v for v in fails(exe, [cands[j]], module).values()})
                    except Exception: pass
                    if f: break
            good = [(len(json.dumps(cands[k + int(n[1:])])), k + int(n[1:]), f[n]) for n in f]
            if good: break
        if not good: break
        _, i, last = min(good, key=lambda t: t[0])
        cur = cands[i]
    if last:
        print(last["why"]); print("\n".join(last["log"])[-3000:])
    print(json.dumps(cur))
main()
