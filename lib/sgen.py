"""Scenario generators (lists of steps) for the sequential properties."""
from rdf import *
from gen import *
import rdf

# ---------------------------------------------------------------- query makers: f(QGen, R) -> query AST
def finish(q_where, g, R, pd=0.15, pstar=0.35, keep_all_if_predvar=True):
    sc = vars_in(q_where)
    if not sc: return dict(query(q_where), ask=True)
    if R.random() < 0.06: return dict(query(q_where), ask=True)
    pv = has_predvar(q_where)
    if R.random() < pstar and '"sub"' not in str(q_where).replace("'", '"'): q = query(q_where)
    elif pv and keep_all_if_predvar:
        if R.random() < 0.5: q = query(q_where, R.sample(sc, len(sc)))
        else: q = query(q_where, R.sample(sc, R.randint(1, len(sc))), distinct=True)
    else: q = query(q_where, R.sample(sc, R.randint(1, len(sc))))
    if R.random() < pd: q["distinct"] = True
    return q

def predvars(g):
    """variables used in predicate position"""
    if isinstance(g, dict):
        if g.get("el") == "tp": return {g["tp"][1]["v"]} if "v" in g["tp"][1] else set()
        return set().union(set(), *[predvars(v) for v in g.values()])
    if isinstance(g, list): return set().union(set(), *[predvars(v) for v in g])
    return set()

def has_predvar(g):
    if isinstance(g, dict):
        if g.get("el") == "tp" and "v" in g["tp"][1]: return True
        return any(has_predvar(v) for v in g.values())
    if isinstance(g, list): return any(has_predvar(v) for v in g)
    return False

def mk_bgp(lo=1, hi=5, **k):
    def f(g, R):
        g.start(); sc = []
        return finish(g.bgp(R.randint(lo, hi), sc, **k), g, R)
    return f

def mk_alg(feats, depth=2, safe=True):
    def f(g, R):
        g.start(safe); sc = []
        return finish(g.group(sc, depth, feats), g, R)
    return f

def mk_ragged(kinds, depth=2):
    """groups over a small pool of variables without any discipline: a variable may be bound in some solutions only,
    reappear in several branches, or be joined before and after it can be unbound"""
    def f(g, R):
        g.start()
        pool = ["x", "y", "z", "u"][:R.choice([3, 4, 4])]
        for v in pool: g.kind[v] = "ent"
        def tp():
            s, o = V(R.choice(pool)), V(R.choice(pool))
            if R.random() < 0.2: s = C(R.choice(g.W.ents))
            elif R.random() < 0.2: o = C(R.choice(g.W.ents))
            if s == o: o = C(R.choice(g.W.ents))
            return {"el": "tp", "tp": [s, C(R.choice(["<p>", "<p>", "<q>", "<r>"])), o]}
        def grp(d, ks=kinds):
            out = [tp()] if R.random() < 0.75 or d == 0 else []
            for _ in range(R.randint(1, 2) if d else R.randint(0, 1)):
                k = R.choice(ks) if d else "tp"
                if not out and k in ("opt", "minus"): k = "union" if "union" in ks else "tp"
                if k == "tp": out.append(tp())
                elif k == "union": out.append({"el": "union", "gs": [grp(d - 1) for _ in range(2)]})
                else: out.append({"el": k, "g": grp(d - 1)})
            return out
        w = grp(depth)
        if not vars_in(w): w.insert(0, {"el": "tp", "tp": [V("x"), C("<p>"), V("y")]})
        return finish(w, g, R)
    return f

def query_scenario(seed, R, mk, nq, ntr, world=None, name="q", extra=(), build=None):
    W = world or World(R)
    ts = build or W.triples(R.randint(max(1, ntr // 2), ntr))
    steps = [{"do": "build", "ts": ts}]
    g = QGen(W, R)
    for _ in range(nq):
        m = R.choice(mk) if isinstance(mk, list) else mk
        steps.append({"do": "q", "q": m(g, R)})
    return {"name": "%s%s" % (name, seed), "steps": steps + list(extra)}

# ---------------------------------------------------------------- aggregates, ordering, windows
def agg_of(fn, e=None, distinct=False, v="r1"):
    return {"fn": fn, "star": e is None, "e": e or E("const", t="<x>"), "distinct": distinct, "v": v}

def mk_agg(g, R):
    g.start(); sc = []
    feats = R.choice([[], [], ["opt"], ["union"], ["filter"]])
    w = g.group(sc, 1, feats, n=R.randint(1, 3))
    if R.random() < 0.85 and not any(g.kind.get(v) == "num" for v in vars_in(w)):
        s = [v for v in vars_in([x for x in w if x["el"] == "tp"]) if g.kind.get(v) == "ent"]
        if s: w.insert(1, {"el": "tp", "tp": [V(R.choice(s)), C("<age>"), V(g.fresh("num"))]})
    pv = predvars(w)
    sc = [v for v in vars_in(w) if g.kind.get(v) != "bindv" and v not in pv]
    if not sc: return dict(query(w), ask=True)
    gv = [v for v in sc if g.kind.get(v) in ("ent", "str", "num") and v not in g.optv]
    grp = R.sample(gv, min(len(gv), R.choice([0, 1, 1, 1, 2])))
    aggs = []
    for k in range(R.randint(1, 2)):
        nums = [v for v in sc if g.kind.get(v) == "num"]
        strs = [v for v in sc if g.kind.get(v) == "date"]
        fn = R.choice(["count", "count", "countstar", "sum", "avg", "min", "max"])
        if fn == "countstar": aggs.append(agg_of("count", v="r%d" % k)); continue
        if fn == "count": aggs.append(agg_of("count", EV(R.choice(sc)), R.random() < 0.35, "r%d" % k)); continue
        if fn in ("sum", "avg"):
            if not nums: continue
            aggs.append(agg_of(fn, EV(R.choice(nums)), R.random() < 0.25, "r%d" % k)); continue
        c = nums + strs
        if c: aggs.append(agg_of(fn, EV(R.choice(c)), False, "r%d" % k))
    if not aggs: aggs = [agg_of("count", EV(R.choice(sc)), False, "r0")]
    q = query(w, grp + [a["v"] for a in aggs], group=grp, aggs=aggs)
    if R.random() < 0.4:
        keys = [v for v in grp if g.kind.get(v) in ("num", "str")] + [a["v"] for a in aggs if a["fn"] in ("count", "sum")]
        if keys: q["order"] = [{"e": EV(v), "desc": R.random() < 0.5} for v in R.sample(keys, R.randint(1, len(keys)))]
    return q

def mk_order(g, R):
    g.start(); sc = []
    w = g.group(sc, R.choice([0, 0, 1]), ["opt", "union", "filter"], n=R.randint(1, 3))
    s = [v for v in vars_in([x for x in w if x["el"] == "tp"]) if g.kind.get(v) == "ent"]
    if s and R.random() < 0.7:
        w.insert(1, {"el": "tp", "tp": [V(R.choice(s)), C(R.choice(["<age>", "<name>", "<born>"])), V(g.fresh("x"))]})
        v = w[1]["tp"][2]["v"]; g.kind[v] = {"<age>": "num", "<name>": "str", "<born>": "date"}[w[1]["tp"][1]["t"]]
    sc = vars_in(w)
    if not sc: return dict(query(w), ask=True)
    pv = R.sample(sc, len(sc)) if has_predvar(w) or R.random() < 0.5 else R.sample(sc, R.randint(1, len(sc)))
    q = query(w, pv, distinct=R.random() < 0.3)
    keys = [v for v in pv if g.kind.get(v) in ("num", "str", "date", "ent")]
    if keys and R.random() < 0.8:
        q["order"] = [{"e": EV(v), "desc": R.random() < 0.4} for v in R.sample(keys, min(len(keys), R.randint(1, 2)))]
        if R.random() < 0.3:
            ks = [v for v in pv if g.kind.get(v) in ("num", "mix", "dtime")]
            e = g.numexp(ks, 1) if ks and R.random() < 0.6 else g.strexp([v for v in pv if g.kind.get(v) in ("str", "ent", "lang", "num")], 1)
            if e is not None and e.get("f") not in (None, "const", "var"): q["order"].insert(0, {"e": e, "desc": R.random() < 0.5})
    if R.random() < 0.7: q["limit"] = R.choice([0, 1, 2, 3, 5, 100])
    if R.random() < 0.4: q["offset"] = R.choice([1, 2, 5, 50])
    return q

def mk_topk(g, R):
    """one basic graph pattern ordered by a compound expression with a LIMIT: evaluated by ranked enumeration"""
    g.start(); sc = []
    w = g.bgp(R.randint(1, 4), sc, varp=0.05, pc=R.choice([0.0, 0.25]))
    ent = [v for v in vars_in(w) if g.kind.get(v) == "ent"]
    for _ in range(R.randint(1, 2)):
        if not ent: break
        w.append({"el": "tp", "tp": [V(R.choice(ent)), C("<age>"), V(g.fresh("num"))]})
    w = [x for x in w if x["el"] == "tp"]
    sc = vars_in(w); nums = [v for v in sc if g.kind.get(v) == "num"]
    if not nums: return mk_order(g, R)
    def term():
        v = EV(R.choice(nums))
        return E("*", v, EC(num(R.choice([2, 3, -1])))) if R.random() < 0.3 else v
    e = E(R.choice("+-"), term(), R.choice([term(), EC(num(R.randint(1, 4)))]))
    if R.random() < 0.3: e = E(R.choice("+-"), e, term())
    if R.random() < 0.15: e = E("*", EV(nums[0]), EV(nums[-1]))
    pv = R.sample(sc, len(sc))
    q = query(w, pv, distinct=R.random() < 0.15)
    q["order"] = [{"e": e, "desc": R.random() < 0.5}]
    if R.random() < 0.15: q["order"].append({"e": EV(nums[0]), "desc": R.random() < 0.5})
    q["limit"] = R.choice([1, 1, 2, 3, 5, 20])
    if R.random() < 0.25: q["offset"] = R.choice([1, 2, 5])
    return q

# ---------------------------------------------------------------- updates and life cycle of one database
def tmpl(g, R, where, kill=False):
    """templates over the variables of `where` that are always bound to entities / values (never literals as subjects)"""
    vs = [v for v in vars_in([x for x in where if x["el"] == "tp"])]
    ents = [v for v in vs if g.kind.get(v) == "ent"]
    out = []
    for _ in range(R.randint(1, 2)):
        if kill and R.random() < 0.7:
            out.append(R.choice([x["tp"] for x in where if x["el"] == "tp"])); continue
        s = V(R.choice(ents)) if ents and R.random() < 0.75 else C(R.choice(g.W.ents))
        p = C(R.choice(LINK + ["<new>"]))
        o = V(R.choice(vs)) if vs and R.random() < 0.6 else C(R.choice(g.W.ents + g.W.strs))
        if "v" in o and g.kind.get(o["v"]) == "pred": o = C(R.choice(g.W.ents))
        out.append([s, p, o])
    return out

def modify(W, R):
    g = QGen(W, R); g.start(); sc = []
    feats = R.choice([[], [], ["filter"], ["opt"], ["union"], ["minus"]])
    w = g.group(sc, 1, feats, n=R.randint(1, 2))
    form = R.choice(["delete", "insert", "both", "deletewhere"])
    if form == "deletewhere":
        b = [x for x in w if x["el"] == "tp"]
        return {"do": "mod", "form": form, "del": [x["tp"] for x in b], "ins": [], "where": b}
    return {"do": "mod", "form": form, "del": tmpl(g, R, w, True) if form != "insert" else [],
            "ins": tmpl(g, R, w) if form != "delete" else [], "where": w}

def upd_scenario(seed, R, n=10, ntr=25, name="upd", kinds=("ins", "del", "insfile", "delfile", "mod"), obs=("info", "all", "dump", "q"), reopen=0.0,
                 world=None, final=("dump", "info", "all"), tails=()):
    W = world or World(R)
    cur = W.triples(R.choice([0, 1, R.randint(2, ntr), R.randint(2, ntr)]))
    steps = [{"do": "build", "ts": cur}]
    U = list(cur) or [W.triple()]
    g = QGen(W, R)
    mkq = [mk_bgp(1, 3), mk_alg(["opt", "union", "filter"], 1)]
    for _ in range(n):
        k = R.choice(kinds)
        if reopen and R.random() < reopen:
            # after save() the files alone carry the database, whether or not it is unloaded in order
            steps += [{"do": "save"}, {"do": "crash"}] if R.random() < 0.35 else [{"do": "reopen", "save": R.random() < 0.5, "proc": R.random() < 0.7}]
        elif k == "mod": steps.append(modify(W, R))
        elif k.startswith("ins"):
            ts = W.triples(R.choice([1, 1, 2, 3, 8]))
            if R.random() < 0.3: ts += R.sample(U, 1)
            if R.random() < 0.15: ts.append(ts[0])
            while R.random() < 0.4:                       # terms nobody has seen, as subject, object or predicate
                x = "<new%d>" % R.randrange(12)
                ts.append(R.choice([(x, "<p>", R.choice(W.ents)), (R.choice(W.ents), "<p>", x), (x, "<p%s" % x[1:], x)] + [(R.choice(W.ents), "<p>", lit("new%d" % R.randrange(12)))] * 3))
            U += ts
            steps.append({"do": k, "ts": ts})
        else:
            ts = R.sample(U, min(len(U), R.choice([1, 2, 5, len(U)])))
            if R.random() < 0.3: ts.append(W.triple())
            if R.random() < 0.1: ts.append(("<zz>", R.choice(["<p>", "<zz>"]), R.choice(W.ents)))
            if R.random() < 0.15: ts.append(ts[0])
            steps.append({"do": k, "ts": ts})
        for o in obs:
            if R.random() < {"info": 0.6, "all": 0.35, "dump": 0.2, "q": 0.4}[o]:
                if o == "q": steps.append({"do": "q", "q": R.choice(mkq)(g, R)})
                else: steps.append({"do": o})
    return {"name": "%s%s" % (name, seed), "steps": steps + [{"do": x} for x in final] + list(tails)}

BAD = ["INSERT DATA { zz:a zz:b zz:c }", "DELETE WHERE { ?x zz:p ?y }", "INSERT { ?x <p> zz:n } WHERE { ?x <p> ?y }", "ASK { zz:a <p> ?y }", "", "SELECT", "SELECT ?x WHERE { ?x <p> }", "SELECT ?x { ?x <p> ?y ", "SELECT ?x WHERE ?x <p> ?y", "SELEC ?x {?x <p> ?y}", "INSERT DATA { <a> <p> }", "INSERT DATA { <e0> <p> ?x }",
       "INSERT DATA { <e0> <p> <e1> ", "DELETE DATA { <e0> <p> <e1> . <e1> }", "DELETE DATA { ?x <p> <e1> }", "DELETE WHERE { ?x <p> }", "INSERT { ?x <p> <e1> } WHERE { ?x <q> }",
       "DELETE { <e0> <p> <e1> }", "INSERT DATA { <e0> <p> \"unterminated }", "SELECT ?x { ?x zz:p ?y }", "INSERT DATA { zz:a zz:b zz:c }", "DELETE DATA { zz:a zz:b zz:c }", "PREFIX a <x> SELECT ?x { ?x a:p ?y }", "\\", "{{{{",
       "SELECT ?x { ?x <p> ?y . FILTER(?y > ) }", "SELECT ?x { ?x <p> ?y } LIMIT x", "SELECT ?x { ?x <p> ?y } ORDER BY", "DELETE { ?x <p> ?y } INSERT { ?x <p> } WHERE { ?x <p> ?y }",
       "SELECT ?x { <e0> <p>/<q> ?x }", "SELECT ?x { ?x ^<p> <e1> }", "SELECT ?x { <e0> <p>+ ?x }",
       "SELECT ?x { ?x <p> ?y FILTER regex(?y }", "CONSTRUCT { ?x <p> ?y }", "ASK", "ASK { ?x <p> }", "INSERT DATA { <e0> <p> <e1> } }", "DROP", "\x01\x02", "INSERT DATA { \"lit\" <p> <e1> }",
       "SELECT ?x { ?x <p> ?y VALUES ?x { <e0> } }", "SELECT ?x { ?x <p> ?y } VALUES ?x { <e0> }", "SELECT ?x { GRAPH <g> { ?x <p> ?y } }", "SELECT ?x { SERVICE <g> { ?x <p> ?y } }",
       "SELECT ?x FROM <g> { ?x <p> ?y }", "ASK FROM <g> { ?x <p> ?y }", "SELECT ?x (COUNT(?y) AS ?c) { ?x <p> ?y } GROUP BY ?x HAVING (COUNT(?y) > 1)", "SELECT ?x { ?x <p> ?y FILTER EXISTS { ?y <p> ?z } }",
       "SELECT ?x { ?x <p> ?y FILTER NOT EXISTS { ?y <p> ?z } }", "SELECT ?x { ?x <p> ?y FILTER (!EXISTS { ?y <p> ?z }) }", "SELECT ?x { ?x <p> ?y FILTER (COUNT(DISTINCT ?y) > 1) }", "SELECT ?x { ?x <p> [ <p> ?y ] }",
       "SELECT ?x { [ <p> ?y ] <p> ?x }", "SELECT ?x { [] <p> ?x }", "SELECT ?x { ?x <p> (1 2) }", "SELECT ?x { (1 2) <p> ?x }", "INSERT DATA { <e0> <p> [] }", "INSERT DATA { <e0> <p> [ <q> <e1> ] }", "INSERT DATA { [ <q> <e1> ] <p> <e0> }",
       "INSERT DATA { <e0> <p> (1 2) }", "INSERT DATA { (1 2) <p> <e0> }", "INSERT DATA { <e0> <p> () }", "WITH <g> DELETE { ?x <p> ?y } WHERE { ?x <p> ?y }", "DELETE { ?x <p> ?y } USING <g> WHERE { ?x <p> ?y }",
       "INSERT DATA { GRAPH <g> { <e0> <p> <zz> } }", "DELETE DATA { GRAPH <g> { <e0> <p> <e1> } }", "DELETE WHERE { GRAPH <g> { ?x <p> ?y } }", "INSERT { GRAPH <g> { ?x <p> <zz> } } WHERE { ?x <p> ?y }",
       "INSERT DATA { <e0> <p> <zz> } ; DELETE DATA { <e0> <p> <zz> }", "DELETE WHERE { ?x <p> ?y } ; DELETE WHERE { ?x <q> ?y }", "INSERT DATA { <e0> <p> <zz> } ; DELETE WHERE { ?x <p> ?y }", "SELECT ?x { ?x <p> ?y } INSERT DATA { <e0> <p> <zz> }",
       "SELECT ?x { ?x <p> ?y } ; INSERT DATA { <e0> <p> <zz> }", "SELECT ?x { ?x <p> ?y } }", "ASK { ?x <p> ?y } LIMIT 1 LIMIT 2", "INSERT DATA { <e0> <p> <zz> } LIMIT 1", "SELECT REDUCED ?x { ?x <p> ?y }", "SELECT ?x { ?x <p> ?y } GROUP BY (?x)",
       "INSERT DATA { <e0> <p> \"500\"^^<http://www.w3.org/2001/XMLSchema#byte> }", "INSERT DATA { <e0> <p> \"x\"^^<http://www.w3.org/2001/XMLSchema#integer> }", "INSERT DATA { <e0> <p> \"1\"^^zz:t }", "INSERT DATA { <e0> ?p <e1> }", "DESCRIBE <e0>",
       "CLEAR ALL", "CLEAR DEFAULT", "DROP ALL", "LOAD <file:///nowhere>", "CREATE GRAPH <g>", "COPY DEFAULT TO <g>", "MOVE <g> TO DEFAULT", "ADD <g> TO DEFAULT", "SELECT ?x { ?x <p> ?y FILTER (STRLEN(?y) > 1) }", "SELECT ?x { ?x <p> ?y FILTER (COALESCE(?y, 1) = 1) }"]

def bad_text(R, valid):
    """a request that has to be refused: one of BAD, or a valid one that is broken in a way no grammar allows"""
    if not valid or R.random() < 0.6:     # an undefined prefix may be one that other requests define
        t = R.choice(BAD); return t.replace("zz:", R.choice(["zz", "e", "pre", "P_1", ""]) + ":") if "zz:" in t and "PREFIX" not in t else t
    t = R.choice(valid)
    k = R.randrange(4)
    if k == 0: return t[:t.rindex("}")]
    if k == 1: return t + R.choice([" }", " {", " <p>", " .", " ?x", " garbage", " \"x\"", " WHERE"])
    if k == 2:
        j = t.index("{"); return t[:j] + R.choice(["{ } {", "", "(", "{ ) ", "{ <p> ", "{ ; ", "{ . "]) + t[j + 1:]
    j = t.rindex("}"); return t[:j] + R.choice(["?", "<", " ?z ", ")", " <p> }", "{ "]) + t[j:]

# ---------------------------------------------------------------- transactions
def tquery(g, R, pre=None):
    """a query whose shape uses a particular index view"""
    W = g.W
    e, o = C(R.choice(W.ents)), C(R.choice(W.ents + W.strs + W.nums))
    p = C(R.choice(pre or W.preds))
    k = R.randrange(8)
    if k == 0: return query([{"el": "tp", "tp": [V("s"), V("p"), V("o")]}])
    if k == 1: return query([{"el": "tp", "tp": [e, V("p"), V("o")]}])
    if k == 2: return query([{"el": "tp", "tp": [V("s"), V("p"), o]}])
    if k == 3: return query([{"el": "tp", "tp": [V("s"), p, V("o")]}])
    if k == 4: return query([{"el": "tp", "tp": [e, p, V("o")]}])
    if k == 5: return query([{"el": "tp", "tp": [V("s"), p, o]}])
    if k == 6: return R.choice([mk_bgp(1, 3), mk_alg(["opt", "union", "minus"], 1)])(g, R)
    return query([{"el": "tp", "tp": [V("s"), p, V("o")]}, {"el": "tp", "tp": [V("o"), C(R.choice(pre or W.preds)), V("x")]}])

def txn_scenario(seed, R, isos=(1, 2, 3), ntx=4, n=16, ntr=20, name="txn", apart=0.5, pend=0.2, preload=True, serial=False, ckpt=0.0, wrong=0.04, mods=0.2, rounds=1):
    W = World(R)
    base = W.triples(R.randint(3, ntr))
    if serial:      # a read that names a term the dictionary does not hold takes no latch (known finding phantom): hold them all
        ne = W.ents + ["<n%d>" % k for k in range(4)]
        base += [("<z>", "<z>", x) for x in ne + W.strs + W.nums + [lit("new%d" % k) for k in range(3)]] + [(x, "<z>", "<z>") for x in ne]
        base += [("<z>", p, "<z>") for p in W.preds + ["<np%d>" % k for k in range(3)]]
    steps = [{"do": "build", "ts": base}]
    U = list(base)
    g = QGen(W, R)
    tid = 0
    for rnd in range(rounds):
        steps.append({"do": "tmopen"}); first = tid
        live, mine = [], {}
        todo = ntx
        for _ in range(n):
            if R.random() < wrong:
                t = R.choice([9999] + list(range(first, tid)) if tid > first else [9999])
                if t not in live:
                    steps.append(R.choice([{"do": "commit", "t": t}, {"do": "rollback", "t": t}, {"do": "tq", "t": t, "q": tquery(g, R)}, {"do": "tins", "t": t, "ts": [W.triple()]}])); continue
            if (not live or R.random() < 0.3) and todo:
                iso = R.choice(isos)
                steps.append({"do": "begin", "t": tid, "iso": iso}); live.append(tid)
                mine[tid] = R.sample(W.preds, 3); tid += 1; todo -= 1; continue
            if not live: break
            t = R.choice(live)
            pre = mine[t] if R.random() < apart else None
            r = R.random()
            if r < pend:
                steps.append({"do": "commit" if R.random() < 0.7 else "rollback", "t": t}); live.remove(t)
                if not live and R.random() < ckpt: steps += [{"do": "ckpt"}, {"do": "all"}, {"do": "dump"}, {"do": "info"}]
            elif r < pend + 0.35: steps.append({"do": "tq", "t": t, "q": tquery(g, R, pre)})
            elif R.random() < mods:
                m = dict(modify(W, R), t=t); m["do"] = "tmod"; steps.append(m)
            elif R.random() < 0.55:
                ts = [W.triple(pre) for _ in range(R.choice([1, 1, 1, 2, 3]))]
                if R.random() < 0.2: ts.append(R.choice(U))
                if R.random() < 0.2: ts.append(R.choice([("<n%d>" % R.randrange(4), "<p>", R.choice(W.ents)), (R.choice(W.ents), R.choice(pre or W.preds), "<n%d>" % R.randrange(4)), (R.choice(W.ents), "<np%d>" % R.randrange(3), lit("new%d" % R.randrange(3)))]))
                U += ts
                steps.append({"do": "tins", "t": t, "ts": ts})
            else:
                c = [x for x in U if pre is None or x[1] in pre] or U
                ts = R.sample(c, min(len(c), R.choice([1, 1, 2])))
                if R.random() < 0.1: ts.append(("<zz>", "<p>", R.choice(W.ents)))
                steps.append({"do": "tdel", "t": t, "ts": ts})
        for t in live:
            if R.random() < 0.7: steps.append({"do": "commit" if R.random() < 0.75 else "rollback", "t": t})
        if serial: steps.append({"do": "serial", "ts": base})
        steps += [{"do": "tmclose"}, {"do": "all"}, {"do": "dump"}, {"do": "info"}]
    return {"name": "%s%s" % (name, seed), "steps": steps}

def mvcc_scenario(name, beh, R):
    """a behaviour of Mvcc.tla on the real transaction manager: key k is the triple <sk> <pk> <ok>"""
    import behave
    tr = lambda k: ("<s%s>" % k, "<p%s>" % k, "<o%s>" % k)
    keys = sorted(range(1, len(behave.var(beh[0][2], "ver")) + 1))
    base = [tr(k) for k in keys]
    steps = [{"do": "build", "ts": base + [("<z>", "<z>", "<z>")]}, {"do": "tmopen"}]
    n = 0
    for act, a, st in beh[1:]:
        tx = behave.var(st, "tx")
        if act == "Begin": steps.append({"do": "begin", "t": n, "iso": int(a[0])}); n += 1; continue
        t = int(a[0]); alive = tx[t - 1]["st"] == "run"
        if act in ("Commit", "Rollback"): steps.append({"do": act.lower(), "t": t - 1}); continue
        exp = "ok" if alive else "ab"
        s, p, o = tr(a[1])
        if act == "Read":
            q = R.choice([[C(s), C(p), V("o")], [V("s"), C(p), C(o)], [C(s), V("p"), V("o")], [V("s"), V("p"), C(o)], [V("s"), C(p), V("o")], [C(s), V("p"), C(o)], [C(s), C(p), C(o)]])
            steps.append({"do": "tq", "t": t - 1, "exp": exp, "q": query([{"el": "tp", "tp": q}]) if any("v" in x for x in q) else query([{"el": "tp", "tp": [V("s"), C(p), C(o)]}])})
        else:
            on = behave.var(st, "ver")[int(a[1]) - 1][-1]["v"] if alive else R.random() < 0.5
            steps.append({"do": "tins" if on else "tdel", "t": t - 1, "exp": exp, "ts": [(s, p, o)]})
    return {"name": name, "steps": steps + [{"do": "tmclose"}, {"do": "all"}, {"do": "dump"}, {"do": "info"}]}

def skew_scenario(i, R):
    """a few serializable transactions over a few keys: reads of one key, writes of another"""
    base = [("<s%d>" % k, "<p%d>" % k, "<o%d>" % k) for k in range(3)]
    news = ["<%s%d%d>" % (a, k, j) for a in "so" for k in range(3) for j in range(2)]
    base += [("<z>", "<z>", x) for x in news] + [(x, "<z>", "<z>") for x in news]
    st = [{"do": "build", "ts": base}, {"do": "tmopen"}]
    live, tid, todo = [], 0, R.choice([2, 2, 3, 4])
    for _ in range(R.choice([8, 12, 20])):
        if (not live or R.random() < 0.35) and todo:
            st.append({"do": "begin", "t": tid, "iso": 1}); live.append(tid); tid += 1; todo -= 1; continue
        if not live: break
        t, k, r = R.choice(live), R.randrange(3), R.random()
        b = ("<s%d>" % k, "<p%d>" % k, "<o%d>" % k)
        if r < 0.2: st.append({"do": R.choice(["commit"] * 4 + ["rollback"]), "t": t}); live.remove(t)
        elif r < 0.6:
            s, p, o = R.choice([b[0], R.choice(news)]), b[1], R.choice([b[2], R.choice(news)])
            q = R.choice([[C(s), C(p), V("o")], [V("s"), C(p), C(o)], [C(s), V("p"), V("o")], [V("s"), V("p"), C(o)], [C(s), V("p"), C(o)], [V("s"), C(p), V("o")]])
            st.append({"do": "tq", "t": t, "q": query([{"el": "tp", "tp": q}])})
        else: st.append({"do": R.choice(["tins", "tins", "tdel"]), "t": t, "ts": [R.choice([b, (b[0], b[1], "<o%d%d>" % (k, R.randrange(2))), ("<s%d%d>" % (k, R.randrange(2)), b[1], b[2])])]})
    for t in live: st.append({"do": "commit", "t": t})
    return {"name": "skew%d" % i, "steps": st + [{"do": "serial", "ts": base}, {"do": "tmclose"}, {"do": "all"}, {"do": "dump"}]}

# ---------------------------------------------------------------- volume: growth of every storage structure
def vol_scenario(i, R, N=1300, M=2600, name="vol", queries=6):
    """thousands of terms, long lists and long strings, removals that empty keys, and reloading"""
    np_ = R.choice([4, 12, N // 2, N])
    preds = ["<p%d>" % k for k in range(np_)]
    ents = ["<e%d>" % k if k % 7 else "<http://example.org/some/longer/path#entity-%d>" % k for k in range(N)]
    lits = [lit("v%d" % k) for k in range(N // 2)] + [lit("w%d " % k + "long text " * R.randint(10, 120)) for k in range(40)] + [num(k) for k in range(60)]
    lits += [lit("%d%s" % (k, "y" * n)) for k, n in enumerate((1000, 3000, 4080, 4096, 5000, 9000))]
    hub, hubo, hubp = ents[0], ents[1], preds[0]
    hot = R.random()
    def tr():
        s = hub if R.random() < 0.15 * hot else R.choice(ents)
        p = hubp if R.random() < 0.3 * hot else R.choice(preds)
        o = hubo if R.random() < 0.1 else R.choice(ents) if R.random() < 0.5 else R.choice(lits)
        return (s, p, o)
    ts = list(dict.fromkeys(tr() for _ in range(M)))
    cut = int(len(ts) * R.choice([0.05, 0.5, 0.9]))
    dump = lambda: {"do": "dump", "cap": 100000, "sample": 7, "seed": R.randrange(10**6)}
    steps = [{"do": "build", "ts": ts[:cut]}, {"do": "info"}]
    def qs():
        for _ in range(queries):
            s, p, o = R.choice(ts)
            k = R.randrange(6)
            w = {0: [[C(s), V("p"), V("o")]], 1: [[V("s"), V("p"), C(o)]], 2: [[V("s"), C(p), C(o)]], 3: [[C(s), C(p), V("x")], [V("x"), V("q"), V("y")]],
                 4: [[V("x"), C(p), C(o)], [V("x"), V("q"), V("y")]], 5: [[C(s), V("p"), C(o)]]}[k]
            steps.append({"do": "q", "q": query([{"el": "tp", "tp": t} for t in w])})
    half = (len(ts) + cut) // 2
    steps += [{"do": R.choice(["insfile", "insfile1"]), "ts": ts[cut:half]}, {"do": "insfile", "ts": ts[half:]}, {"do": "info"}]
    if R.random() < 0.5: steps.append({"do": "reopen", "save": R.random() < 0.5})
    steps.append(dump()); qs()
    d = R.sample(ts, len(ts) // R.choice([2, 3, 10]))
    if R.random() < 0.5: d = list(dict.fromkeys(d + [t for t in ts if t[0] == hub or t[2] == hubo]))
    steps += [{"do": R.choice(["delfile", "delfile1"]), "ts": d}, {"do": "info"}, dump()]
    b = R.sample(d, len(d) // 2) + [("<fresh%d>" % k, R.choice(preds), lit("fresh%d" % k)) for k in range(R.choice([5, 300]))]
    steps += [{"do": "insfile", "ts": b}, {"do": "ins", "ts": b[:3] + [tr() for _ in range(20)]}, {"do": "del", "ts": R.sample(ts, 20)}]
    if R.random() < 0.7: steps += [{"do": "save"}, {"do": "crash"}] if R.random() < 0.4 else [{"do": "reopen", "save": R.random() < 0.5}]
    qs()
    steps += [{"do": "all"}, {"do": "info"}, dump()]
    return {"name": "%s%s" % (name, i), "steps": steps, "timeout": 120}

# ---------------------------------------------------------------- several threads at once
def auto_conc(i, R, nth=3, n=5, rounds=2):
    """updates and queries without transactions from several threads"""
    W = World(R); base = W.triples(R.randint(3, 15)); U = list(base); g = QGen(W, R)
    steps = [{"do": "build", "ts": base}]
    for _ in range(rounds):
        th = []
        for k in range(R.choice([2, nth, nth + 1])):
            l = []
            for _ in range(n):
                us = R.choice([0, 0, 0, 50, 300, 1500])
                r = R.random()
                if r < 0.5: l.append({"do": "q", "q": tquery(g, R), "us": us})
                elif r < 0.75: ts = [W.triple() for _ in range(R.choice([1, 2, 4]))] + ([("<n%d>" % R.randrange(5), "<np>", lit("n%d" % R.randrange(5)))] if R.random() < 0.4 else []); U += ts; l.append({"do": "ins", "ts": ts, "us": us})
                elif r < 0.93: l.append({"do": "del", "ts": R.sample(U, min(len(U), R.choice([1, 2, 5]))), "us": us})
                else: l.append(dict(modify(W, R), us=us))
            th.append(l)
        steps += [{"do": "par", "threads": th, "pseed": R.randrange(1, 10**6)}, {"do": "all"}, {"do": "info"}, {"do": "dump"}]
    return {"name": "auto%d" % i, "steps": steps, "racy": True}

def txn_conc(i, R, isos=(1, 2, 3), nth=3, ntx=2, n=4, serial=False, apart=0.5, small=False, name="tconc"):
    """transactions of several threads"""
    W = World(R); base = W.triples(R.randint(3, 8 if small else 15))
    if serial:
        ne = W.ents + ["<n%d>" % k for k in range(4)]
        base += [("<z>", "<z>", x) for x in ne + W.strs + W.nums + [lit("new%d" % k) for k in range(3)]] + [(x, "<z>", "<z>") for x in ne]
        base += [("<z>", p, "<z>") for p in W.preds]
    U = list(base); g = QGen(W, R); th = []; tid = 0
    for k in range(R.choice([2, nth])):
        l = []; pre = R.sample(W.preds, 3)
        for _ in range(ntx):
            us = lambda: R.choice([0, 0, 0, 0, 100, 1000])
            l.append({"do": "begin", "t": tid, "iso": R.choice(isos), "us": us()})
            for _ in range(R.randint(1, n)):
                p = pre if R.random() < apart else None
                r = R.random()
                if r < 0.45: l.append({"do": "tq", "t": tid, "q": tquery(g, R, p), "us": us()})
                elif r < 0.8:
                    ts = [W.triple(p) for _ in range(R.choice([1, 1, 2]))]
                    if R.random() < 0.3 : ts.append((R.choice(W.ents), R.choice(W.preds if serial else W.preds + ["<np>"]), R.choice(["<n%d>" % R.randrange(4), lit("new%d" % R.randrange(3))])))
                    U += ts; l.append({"do": "tins", "t": tid, "ts": ts, "us": us()})
                else: l.append({"do": "tdel", "t": tid, "ts": R.sample(U, min(len(U), R.choice([1, 2]))), "us": us()})
            l.append({"do": "commit" if R.random() < 0.8 else "rollback", "t": tid, "us": us()})
            tid += 1
        th.append(l)
    steps = [{"do": "build", "ts": base}, {"do": "tmopen"}, {"do": "par", "threads": th, "pseed": R.randrange(1, 10**6)}]
    if serial: steps.append({"do": "serial", "ts": base})
    return {"name": "%s%d" % (name, i), "steps": steps + [{"do": "tmclose"}, {"do": "all"}, {"do": "dump"}, {"do": "info"}], "racy": True}

def atom_conc(i, R):
    """writers that change several keys at once against readers that read everything more than once"""
    base = [("<s%d>" % k, "<p%d>" % (k % 2), "<o%d>" % k) for k in range(4)] + [("<z>", "<z>", "<n%d>" % k) for k in range(6)] + [("<n%d>" % k, "<z>", "<z>") for k in range(6)]
    th, tid = [], 0
    qs = [query([{"el": "tp", "tp": [V("s"), V("p"), V("o")]}]), query([{"el": "tp", "tp": [V("s"), C("<p0>"), V("o")]}]), query([{"el": "tp", "tp": [V("s"), C("<p1>"), V("o")]}])]
    qs += [query([{"el": "tp", "tp": [C("<s%d>" % k), V("p"), V("o")]}]) for k in range(2)]
    rd = R.choice([2, 2, 3, 1])
    for k in range(R.choice([2, 3])):
        l = []
        for _ in range(R.randint(3, 5)):
            us = R.choice([0, 0, 200])
            if k == 0:
                l.append({"do": "begin", "t": tid, "iso": R.choice([2, 3]), "us": us})
                ts = [("<s%d>" % a, "<p%d>" % R.randrange(2), "<n%d>" % R.randrange(6)) for a in R.sample(range(4), 3)]
                l.append({"do": "tins", "t": tid, "ts": ts})
                if R.random() < 0.5: l.append({"do": "tdel", "t": tid, "ts": [R.choice(base[:4])]})
                l.append({"do": R.choice(["commit"] * 4 + ["rollback"]), "t": tid})
            else:
                l.append({"do": "begin", "t": tid, "iso": rd, "us": us})
                for _ in range(R.randint(2, 4)): l.append({"do": "tq", "t": tid, "q": R.choice(qs), "us": R.choice([0, 0, 300])})
                l.append({"do": "commit", "t": tid})
            tid += 1
        th.append(l)
    return {"name": "atom%d" % i, "steps": [{"do": "build", "ts": base}, {"do": "tmopen"}, {"do": "par", "threads": th, "pseed": R.randrange(1, 10**6)}, {"do": "tmclose"}, {"do": "all"}, {"do": "dump"}, {"do": "info"}], "racy": True}

def pause_conc(i, R):
    """one request of a thread is stopped at one point inside it, until requests of another thread have been answered (or time is up)"""
    k = R.randrange(6)
    if k == 0: s = auto_conc(i, R, 2, 3, 1)
    elif k == 1: s = txn_conc(i, R, isos=(1,), nth=2, ntx=2, n=3, serial=True, small=True, apart=0.3)
    elif k == 2: s = txn_conc(i, R, nth=2, ntx=2, n=3, small=True, apart=0.3)
    else: s = atom_conc(i, R)
    p = [st for st in s["steps"] if st["do"] == "par"][0]
    th = p["threads"] = p["threads"][:2]; p["pseed"] = 0
    for l in th:
        for st in l: st["us"] = 0
    a, b = (th[0], th[1]) if k > 2 or R.random() < 0.5 else (th[1], th[0])
    c = [j for j, st in enumerate(a) if st["do"] in (("commit", "rollback") if k > 2 and R.random() < 0.7 else ("begin", "commit", "rollback", "tins", "tdel", "tq", "ins", "del", "mod", "q"))]
    j = R.choice(c); st = a[j]
    top = {"begin": 11, "commit": 250, "rollback": 250}.get(st["do"], 5000)
    st.update(stop=int(top ** R.random()) + (R.randrange(20) if top > 11 else 0), opens=0, waits=1, hold=40)
    lo = R.randrange(len(b)) if k <= 2 else R.choice([n for n, x in enumerate(b) if x["do"] == "begin"])
    b[lo]["wait"] = 0
    b[min(len(b) - 1, lo + R.randrange(5))]["done"] = 1
    s["name"] = "pause%d" % i
    return s
