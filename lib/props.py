"""One function per property: what is generated, executed on the real code and decided by the specification."""
import random
import check, scn
from sgen import *

RO = ["the generated data and queries stay inside the fragment DESIGN.md describes; the defects of gStore outside it are listed in known-findings.json"]

def seqs(c, mk, nq, nt):
    """scenario i is made by mk(i, rng); the number depends on the tier; every second one is written in varied spellings"""
    out = [mk(i, c.rng(i)) for i in range(nq if c.quick else nt)]
    for i, s in enumerate(out):
        R = c.rng("spell", i)
        if i % 2 == 0: continue
        for st in [y for x in s["steps"] for y in ([x] if x["do"] != "par" else [z for th in x["threads"] for z in th])]:
            if st["do"] in ("ins", "del", "mod", "q", "tins", "tdel", "tmod", "tq") and "text" not in st and R.random() < 0.7: st["sp"] = R.randrange(1 << 30)
    return out

def vols(c, exe, nq, nt=60):
    """thousands of terms: what only larger structures exercise"""
    c.store(exe, seqs(c, lambda i, R: vol_scenario(i, R), nq, nt) + ([] if c.quick else seqs(c, lambda i, R: vol_scenario(i, R, 4000, 10000, "big"), 0, 8)))

def qprop(c, kinds, nq=96, nt=1500, per=14, ntr=25, big=0):
    exe = check.driver()
    def mk(i, R):
        n, m = kinds[i % len(kinds)]
        return query_scenario(i, R, m, per, ntr, name=n)
    c.store(exe, seqs(c, mk, nq, nt))
    if big: c.store(exe, seqs(c, lambda i, R: query_scenario(i, R, kinds[i % len(kinds)][1], 10, 120, name="wide", world=World(R, nent=25)), big, big * 15))
    c.probes(exe)
    return c.finish(assumptions=RO)

def P02(c): return qprop(c, [("bgp", mk_bgp(1, 4)), ("bgp", mk_bgp(2, 6)), ("pv", mk_bgp(1, 4, varp=0.35)), ("const", mk_bgp(1, 4, pc=0.5))], big=32)
def P03(c): return qprop(c, [(k, mk_alg([k])) for k in ("opt", "union", "minus", "group", "sub")] + [("mun", mk_alg(["minus", "union"])), ("rag", mk_ragged(["tp", "opt", "union", "minus", "group"])), ("rag", mk_ragged(["tp", "union", "minus"]))] + [("alg", mk_alg(["opt", "union", "minus", "group", "filter"]))] * 2, nq=220)
def P04(c): return qprop(c, [("filter", mk_alg(["filter"])), ("bind", mk_alg(["bind", "filter"])), ("filter", mk_alg(["filter", "opt"], 1))])
def P05(c): return qprop(c, [("agg", mk_agg)])
def P06(c): return qprop(c, [("order", mk_order), ("topk", mk_topk)], nq=120)

def P07(c):
    exe = check.driver()
    c.store(exe, seqs(c, lambda i, R: upd_scenario(i, R, n=12, final=("info", "all")), 96, 1500))
    vols(c, exe, 4)
    c.probes(exe)
    return c.finish(assumptions=RO)

def P08(c):
    exe = check.driver()
    c.store(exe, seqs(c, lambda i, R: upd_scenario(i, R, n=8, obs=("dump", "dump"), ntr=15, kinds=("ins", "del", "insfile", "delfile"), final=("dump", "info")), 80, 1000))
    vols(c, exe, 8)
    c.probes(exe)
    return c.finish(assumptions=RO)

def P09(c):
    exe = check.driver()
    c.store(exe, seqs(c, lambda i, R: upd_scenario(i, R, n=10, reopen=0.4, final=("all", "info", "dump"), tails=[{"do": "reopen"}, {"do": "all"}, {"do": "info"}, {"do": "dump"}]), 96, 1200))
    vols(c, exe, 8)
    c.probes(exe)
    return c.finish(assumptions=RO)

def p01_scenario(i, R, big=False):
    import texts
    n = R.choice([0, 1, 3, 20, 40]) if not big else R.choice([300, 800])
    ts = texts.rich_triples(R, n, big)
    steps = [{"do": "build", "ts": ts, "text": texts.document(ts, R)}, {"do": "info"}, {"do": "all"}]
    if not big: steps.append({"do": "dump"})
    for _ in range(2):
        more = texts.rich_triples(R, R.choice([1, 5, 25]))
        if R.random() < 0.4 and ts: more += R.sample(ts, min(len(ts), 5))
        steps.append({"do": "insfile", "ts": more, "text": texts.document(more, R)}); ts = ts + more
        if R.random() < 0.5:
            d = R.sample(ts, min(len(ts), 7))
            steps.append({"do": "delfile", "ts": d, "text": texts.document(d, R)})
        steps += [{"do": "info"}, {"do": "all"}]
    return {"name": "load%d" % i, "steps": steps}

def P01(c):
    exe = check.driver()
    c.store(exe, seqs(c, lambda i, R: p01_scenario(i, R), 80, 1000) + seqs(c, lambda i, R: p01_scenario(i, R, True), 6, 60))
    vols(c, exe, 4)
    c.probes(exe)
    return c.finish(assumptions=RO)

def P10(c):
    exe = check.driver()
    def mk(i, R):
        s = upd_scenario(i, R, n=8, final=("dump", "info", "all"))
        out = [s["steps"][0]]
        valid = [scn.Run.plain_text(None, st) for st in s["steps"] if st["do"] in ("ins", "del", "mod", "q") and "text" not in st]
        valid = [t for t in valid if t.count("{") == 1 and '"' not in t]
        for st in s["steps"][1:]:
            while R.random() < 0.6: out.append({"do": "bad", "text": bad_text(R, valid)})
            out.append(st)
        s["steps"] = out
        return s
    c.store(exe, seqs(c, mk, 64, 800))
    c.probes(exe)
    return c.finish(assumptions=RO)

def P11(c):
    import texts
    exe = check.driver()
    def mk(i, R):
        if i % 2: s = upd_scenario(i, R, n=6, obs=(), final=())
        else: s = p01_scenario(i, R)
        out = []
        for k, st in enumerate(s["steps"]):
            out.append(st)
            if R.random() < 0.2 and st["do"] != "build": out.append({"do": "export"})
        s["steps"] = out + [{"do": "export"}, {"do": "all"}]
        return s
    c.store(exe, seqs(c, mk, 64, 800))
    c.probes(exe)
    return c.finish(assumptions=RO)

# ---------------------------------------------------------------- transactions
def behaviours(c, cfg, n, depth=30, serial=False):
    import behave
    out = []
    for i, b in enumerate(behave.simulate("Mvcc", cfg, n, depth, int(c.seed) * 1000 + (0 if c.quick else 7))):
        s = mvcc_scenario("mvcc%d" % i, b, c.rng("beh", i))
        if serial: s["steps"].insert(-4, {"do": "serial", "ts": s["steps"][0]["ts"]})
        out.append(s)
    return out

def P12(c):
    exe = check.driver()
    mk = lambda i, R: txn_scenario(i, R, ntx=R.choice([3, 5]), n=24, apart=1.0, pend=0.25, wrong=0.1, name="atom")
    mk2 = lambda i, R: txn_scenario(i, R, isos=(2, 3), ntx=4, n=30, ntr=8, apart=1.0, pend=0.1, name="long")
    c.store(exe, seqs(c, mk, 96, 1500) + seqs(c, mk2, 64, 1000), "TxnTrace")
    c.probes(exe, "TxnTrace")
    return c.finish(assumptions=RO)

def P13(c):
    exe = check.driver()
    c.model("Mvcc", "MvccQ.cfg" if c.quick else "Mvcc.cfg", workers=8, heap="6g", timeout=3000)
    mk = lambda i, R: txn_scenario(i, R, isos=[(2,), (3,), (1, 2, 3), (2, 3)][i % 4], ntx=6, n=36, ntr=12, apart=0.3, name="iso")
    c.store(exe, behaviours(c, "MvccSim.cfg", 160 if c.quick else 3000) + seqs(c, mk, 120, 2000), "TxnTrace")
    c.probes(exe, "TxnTrace")
    return c.finish(assumptions=RO)

def P14(c):
    exe = check.driver()
    c.model("Mvcc", "MvccSRQ.cfg" if c.quick else "MvccSR.cfg", workers=8, heap="6g", timeout=3000)
    mk = lambda i, R: txn_scenario(i, R, isos=(1,), ntx=4, n=18, ntr=5, apart=0.2, wrong=0, serial=True, name="ser")
    c.store(exe, behaviours(c, "MvccSimSR.cfg", 100 if c.quick else 2000, serial=True) + seqs(c, skew_scenario, 240, 4000) + seqs(c, mk, 60, 1000), "TxnTrace")
    c.probes(exe, "TxnTrace")
    return c.finish(assumptions=RO)

def P15(c):
    exe = check.driver()
    def mk(i, R):
        s = txn_scenario(i, R, isos=(1, 2, 3) if i % 3 else (2, 3), ntx=6, n=30, ntr=15, pend=0.3, ckpt=0.9, rounds=2, name="ckpt")
        if i % 2: s["steps"] += [{"do": "reopen", "save": True}, {"do": "all"}, {"do": "dump"}, {"do": "info"}]
        return s
    c.store(exe, seqs(c, mk, 120, 2000), "TxnTrace")
    c.probes(exe, "TxnTrace")
    return c.finish(assumptions=RO)

# ---------------------------------------------------------------- several threads
def P16(c):
    exe = check.race_driver()
    mix = [lambda i, R: txn_conc(i, R, isos=(2,)), lambda i, R: txn_conc(i, R, isos=(3,)), lambda i, R: txn_conc(i, R, isos=(1,), serial=True, small=True),
           lambda i, R: txn_conc(i, R), lambda i, R: atom_conc(i, R)]
    c.store(exe, seqs(c, lambda i, R: auto_conc(i, R), 80, 1500), "ConcTrace")
    c.store(exe, seqs(c, lambda i, R: mix[i % len(mix)](i, R), 130, 2500), "ConcTrace")
    c.store(exe, seqs(c, lambda i, R: pause_conc(i, R), 240, 4000), "ConcTrace")
    c.probes(exe, "ConcTrace")
    return c.finish(assumptions=RO + ["the schedules are those the operating system and random pauses in the storage, transaction and query code produce"])
