"""Generators of data and of queries (as abstract syntax trees)."""
from rdf import *

LINK = ["<p>", "<q>", "<r>"]
XI, XD, XB, XT = XSD + "integer", XSD + "double", XSD + "boolean", XSD + "date"

class World:
    """a small typed universe of terms; predicates fix the type of their objects so that comparisons are well-typed"""
    def __init__(self, R, nent=7, rich=True):
        self.R = R
        self.ents = ["<e%d>" % i for i in range(nent)]
        if rich:
            self.ents[-1] = "<http://ex.org/ns#n%d>" % R.randrange(3)
        self.nums = [num(v) for v in (0, 1, 2, 5, 10, -3)] + [num(v, "decimal") for v in ("1.5", "-0.5", "2.0")] + [num("3.5", "double"), num("7", "long"), num("2.5", "float"), num("2", "float")]
        self.strs = [lit(s) for s in ("a", "b", "ab", "Abc", "abc", "x y", "", "zeta", "me@x.org")]
        self.langs = ['"%s"@%s' % (s, l) for s in ("chat", "a", "Bon") for l in ("en", "fr", "en-US")]
        self.bools = ['"%s"^^<%s>' % (b, XB) for b in ("true", "false")]
        self.dates = ['"%s"^^<%s>' % (d, XT) for d in ("2020-01-02", "1999-12-31", "2020-11-30")]
        self.dtimes = ['"%s"^^<%sdateTime>' % (d, XSD) for d in ("2020-01-02T03:04:05", "1999-12-31T23:59:00", "2020-01-02T10:00:59")]
        self.odds = ['"x"^^<%sdecimal>' % XSD, '""^^<%sdecimal>' % XSD, '"12345678901"^^<%sinteger>' % XSD, '"5"^^<http://ex.org/type>', '"yes"^^<%sboolean>' % XSD, '"1e"^^<%sdouble>' % XSD, '"no@tag"', '"1"^^<%sboolean>' % XSD]
        self.kinds = {"<p>": "ent", "<q>": "ent", "<r>": "ent", "<age>": "num", "<name>": "str", "<label>": "lang", "<flag>": "bool", "<born>": "date", "<mix>": "mix", "<at>": "dtime", "<odd>": "odd"}
        self.preds = list(self.kinds)
    def pool(self, k):
        return {"ent": self.ents, "num": self.nums, "str": self.strs, "lang": self.langs, "bool": self.bools, "date": self.dates, "dtime": self.dtimes, "odd": self.odds,
                "mix": self.ents + self.nums + self.strs + self.langs + self.bools}[k]
    def triple(self, preds=None):
        R = self.R
        p = R.choice(preds or (LINK * 2 + self.preds))
        return (R.choice(self.ents), p, R.choice(self.pool(self.kinds[p])))
    def triples(self, n, preds=None):
        return [self.triple(preds) for _ in range(n)]

class QGen:
    def __init__(self, W, R):
        self.W, self.R = W, R
        self.kind = {}          # variable -> kind of value it carries ("ent", "num", ..., "pred", "mix")
        self.nv = 0
        self.noself, self.noconst, self.conn = True, False, 0.9
    def fresh(self, kind):
        self.nv += 1
        v = "xyzuvwabcdefghijklmn"[self.nv - 1] if self.nv <= 20 else "v%d" % self.nv
        self.kind[v] = kind
        return v
    def vars_of(self, kinds, scope=None):
        return [v for v, k in self.kind.items() if k in kinds and (scope is None or v in scope)]
    def subj(self, scope, pc=0.25, pn=0.4):
        R = self.R
        if R.random() < pc: return C(R.choice(self.W.ents) if R.random() < 0.93 else "<nowhere>")
        old = [v for v in scope if self.kind[v] == "ent"]
        if old and R.random() > pn: return V(R.choice(old))
        return V(self.fresh("ent"))
    def tp(self, scope, varp=0.15, preds=None, pc=0.25, first=False):
        """one triple pattern; scope: list of variables already in scope (extended). Usually it shares a variable with
        the scope, and the first pattern of a group always has a variable."""
        R, W = self.R, self.W
        old = [v for v in scope if self.kind.get(v) == "ent"]
        s = self.subj(scope, pc)
        if old and R.random() < self.conn: s = V(R.choice(old))
        if R.random() < varp:
            old = [v for v in scope if self.kind[v] == "pred"]
            p = V(R.choice(old)) if old and R.random() < 0.4 else V(self.fresh("pred"))
            kind = R.choice(["ent", "mix", "any"])
            if kind == "ent":
                o = self.subj(scope + ([s["v"]] if "v" in s else []), 0.3)
                if "v" in o and o["v"] not in scope: self.kind[o["v"]] = "ent" if R.random() < 0.5 else "mix"
            elif kind == "mix" and R.random() < 0.5:
                o = C(R.choice(W.pool("mix")))
            else:
                o = V(self.fresh("mix"))
        else:
            pp = R.choice(preds or (LINK * 2 + W.preds))
            if R.random() < 0.03: pp = "<nopred>"
            p = C(pp)
            k = W.kinds.get(pp, "ent")
            if k == "ent":
                o = self.subj(scope + ([s["v"]] if "v" in s else []), pc)
            else:
                old = [v for v in scope if self.kind[v] == k]
                if R.random() < 0.2: o = C(R.choice(W.pool(k)))
                elif old and R.random() < 0.3: o = V(R.choice(old))
                else: o = V(self.fresh(k))
        if self.noself and "v" in s and o == s:           # ?x p ?x
            o = V(self.fresh("ent"))
        if (first or self.noconst) and not any("v" in t for t in (s, p, o)):
            s = V(self.fresh("ent"))
        if "v" in s and "v" in o and R.random() < 0.35 and self.kind.get(o["v"]) == "ent" and "v" not in p:
            s, o = o, s                                    # connect through the object as well
        for t in (s, p, o):
            if "v" in t and t["v"] not in scope: scope.append(t["v"])
        return {"el": "tp", "tp": [s, p, o]}
    def bgp(self, n, scope, **k):
        return [self.tp(scope, first=(i == 0), **k) for i in range(n)]

    # ---------------------------------------------------------------- expressions (well-typed)
    def numexp(self, scope, d=2):
        R = self.R
        vs = [v for v in scope if self.kind.get(v) == "num"]
        r = R.random()
        if d == 0 or r < 0.5:
            return EV(R.choice(vs)) if vs and R.random() < 0.75 else EC(R.choice(self.W.nums[:6]))
        if r < 0.8:
            return E(R.choice("+-*" if d == 1 else "+-"), self.numexp(scope, d - 1), self.numexp(scope, d - 1))
        if r < 0.9: return R.choice([E("/", self.numexp(scope, 0), EC(R.choice([num(1), num(2), num("2.0", "decimal"), num("2", "float")]))), E("neg", self.numexp(scope, d - 1))])
        ts = [v for v in scope if self.kind.get(v) == "dtime"]
        if ts and R.random() < 0.6: return E(R.choice(["year", "month", "day", "hours", "minutes"]), EV(R.choice(ts)))
        if r < 0.95: return E("if", E(R.choice(["<", ">", "=", "!="]), self.numexp(scope, 0), self.numexp(scope, 0)), self.numexp(scope, d - 1), self.numexp(scope, d - 1))
        return E("abs", self.numexp(scope, d - 1))
    def strexp(self, scope, d=1):
        R = self.R
        vs = [v for v in scope if self.kind.get(v) == "str"]
        r = R.random()
        if d == 0 or r < 0.5:
            return EV(R.choice(vs)) if vs and R.random() < 0.8 else EC(R.choice(self.W.strs))
        if r < 0.6: return E("ucase", self.strexp(scope, 0))
        if r < 0.7: return E("lcase", self.strexp(scope, 0))
        if r < 0.77: return E("concat", *[self.strexp(scope, 0) for _ in range(R.choice([1, 2, 2, 3]))])
        if r < 0.8: return E("if", E(R.choice(["=", "!=", "<"]), self.strexp(scope, 0), self.strexp(scope, 0)), self.strexp(scope, 0), self.strexp(scope, 0))
        if r < 0.85:
            vs = [v for v in scope if self.kind.get(v) in ("lang", "num", "bool", "odd", "date", "str")]
            if vs: return E("lang", EV(R.choice(vs)))
        vs = [v for v in scope if self.kind.get(v) in ("ent", "lang", "str", "num", "bool", "date", "dtime", "odd", "mix")]
        return E("str", EV(R.choice(vs))) if vs else self.strexp(scope, 0)
    def boolexp(self, scope, d=2):
        R = self.R
        if d > 0 and R.random() < 0.35:
            k = R.choice(["&&", "||", "!"])
            a, b = self.boolexp(scope, d - 1), self.boolexp(scope, d - 1)
            if a is None or b is None: return None
            return E("!", a) if k == "!" else E(k, a, b)
        by = {}
        scope = [v for v in scope if self.kind.get(v) != "pred"]     # expressions over predicate variables: known finding
        for v in scope: by.setdefault(self.kind.get(v), []).append(v)
        opts = []
        CMP = ["=", "!=", "<", ">", "<=", ">="]
        if "num" in by: opts += ["num"] * 4 + ["innum"]
        if "str" in by: opts += ["str", "contains", "strstarts", "regex", "str"]
        if "lang" in by: opts += ["lang", "langm", "regexl"]
        if "bool" in by: opts += ["bool"]
        if "date" in by: opts += ["date"]
        if "ent" in by: opts += ["ent", "inent"]
        if "mix" in by: opts += ["ty", "ty", "mixf"]
        if "odd" in by: opts += ["ty", "oddf", "oddf", "dt"]
        if "dtime" in by: opts += ["dtime", "num", "dt"]
        if [v for v in scope if self.kind.get(v) in ("num", "str", "lang", "bool")]: opts += ["ebv", "dt"]
        if "num" in by: opts += ["div0"]
        if "lang" in by: opts += ["langc", "langu"]
        if d > 0: opts += ["if"]
        allv = [v for v in scope if v in self.kind]
        if allv: opts += ["bound", "tyany"]
        if not opts: return None
        k = R.choice(opts)
        W = self.W
        if k == "num": return E(R.choice(CMP), self.numexp(scope), self.numexp(scope, 1))
        if k == "innum": return E(R.choice(["in", "notin"]), EV(R.choice(by["num"])), *[EC(x) for x in R.sample(W.nums, R.randint(1, 3))])
        if k == "str": return E(R.choice(CMP), self.strexp(scope), self.strexp(scope))
        if k == "contains": return E("contains", EV(R.choice(by["str"])), EC(lit(R.choice(["a", "b", "bc", "", "q"]))))
        if k == "strstarts": return E("strstarts", EV(R.choice(by["str"])), EC(lit(R.choice(["a", "A", "b", "", "ab"]))))
        if k == "regex": return E("regex", EV(R.choice(by["str"])), EC(lit(R.choice(["a", "^a", "b$", "^abc$", "a.c", "Z"]))), ci=R.random() < 0.5)
        if k == "lang": return E(R.choice(["=", "!="]), E("lang", EV(R.choice(by["lang"]))), EC(lit(R.choice(["en", "fr", "en-US"]))))
        if k == "langm": return E("langmatches", E("lang", EV(R.choice(by["lang"]))), EC(lit(R.choice(["en", "fr", "*", "EN"]))))
        if k == "regexl": return E("regex", E("str", EV(R.choice(by["lang"]))), EC(lit(R.choice(["a", "^c", "n$"]))), ci=R.random() < 0.5)
        if k == "bool": return E(R.choice(["=", "!="]), EV(R.choice(by["bool"])), EC(R.choice(W.bools)))
        if k == "date": return E(R.choice(CMP), EV(R.choice(by["date"])), EC(R.choice(W.dates)))
        if k == "dtime": return E(R.choice(CMP), EV(R.choice(by["dtime"])), EC(R.choice(W.dtimes)) if R.random() < 0.7 else EV(R.choice(by["dtime"])))
        if k == "ebv":
            v = EV(R.choice([v for v in scope if self.kind.get(v) in ("num", "str", "lang", "bool")]))
            return R.choice([v, E("!", v), E("&&", v, v), E("||", v, v), E("!", E("!", v))])
        if k == "dt":
            v = R.choice([v for v in scope if self.kind.get(v) in ("num", "str", "lang", "bool", "date", "dtime", "odd")])
            return E(R.choice(["=", "!="]), E("datatype", EV(v)), EC("<%s>" % R.choice([XI, XD, XB, XT, XSD + "long", XSD + "float", XSD + "decimal", XSD + "string", XSD + "dateTime", "http://ex.org/type", "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"])))
        if k == "div0": return E(R.choice(["<", ">"]), E("/", EV(R.choice(by["num"])), EC(R.choice([num(0), num("0", "decimal"), num("0.0", "double")]))), EC(R.choice(W.nums[:6])))
        if k == "langc": return E(R.choice(["contains", "strstarts"]), EV(R.choice(by["lang"])), EC(R.choice([lit("a"), lit("ch"), '"a"@en', '"c"@fr', '"B"@en'])))
        if k == "langu": return E("=", E(R.choice(["ucase", "lcase"]), EV(R.choice(by["lang"]))), EC(R.choice(['"CHAT"@en', '"chat"@fr', '"BON"@en-US', '"A"@fr', '"a"@en'])))
        if k == "mixf":
            v = EV(R.choice(by["mix"]))
            return R.choice([E(R.choice(["contains", "strstarts", "regex"]), v, EC(lit("a"))), E(R.choice(["<", ">", "<=", ">="]), v, EC(R.choice(W.nums[:6] + W.strs))), E("=", E("str", v), EC(R.choice(W.strs + [lit("5"), lit("e1"), lit("true")]))),
                             E(R.choice(["=", "!="]), E("lang", v), EC(R.choice([lit(""), lit("en")])))])
        if k == "oddf":
            v = EV(R.choice(by["odd"]))
            return R.choice([E(R.choice(["<", ">", "<=", ">="]), v, EC(R.choice(W.nums[:6] + [num("4000000000")]))), E("=", E("+", v, EC(num(1))), EC(num(2))), E("bound", v=v["v"]), E("=", E("str", v), EC(R.choice([lit("x"), lit("5"), lit("1")]))),
                             E("=", E("lang", v), EC(lit(""))), E(R.choice(["isiri", "isliteral", "isnumeric"]), v)])
        if k == "if":
            a, b, c = [self.boolexp(scope, 0) for _ in range(3)]
            return E("if", a, b, c) if a and b and c else None
        if k == "ent":
            a = EV(R.choice(by["ent"]))
            return E(R.choice(["=", "!="]), a, EV(R.choice(by["ent"])) if R.random() < 0.5 else EC(R.choice(W.ents)))
        if k == "inent": return E(R.choice(["in", "notin"]), EV(R.choice(by["ent"])), *[EC(x) for x in R.sample(W.ents, R.randint(1, 3))])
        if k == "ty": return E(R.choice(["isiri", "isliteral", "isnumeric"]), EV(R.choice(by.get("mix", []) + by.get("odd", []))))
        if k == "tyany": return E(R.choice(["isiri", "isliteral"]), EV(R.choice(allv)))
        if k == "bound": return E("bound", v=R.choice(allv))
        return E("bound", v=R.choice(allv))

    # ---------------------------------------------------------------- groups
    def group(self, scope, depth, feats, n=None):
        """a group whose variables extend `scope` (a list, modified); sub-groups see the enclosing variables so that the
        pattern joins; the patterns generated are well designed (an optional's inner variables do not reappear outside)"""
        R = self.R
        g = self.bgp(n or R.randint(1, 3), scope, varp=0.1, pc=0.2)
        if depth <= 0 or not feats: return g
        mine = vars_in(g)           # filters only speak of variables their own group binds
        for _ in range(R.randint(0, 2) if depth < 2 else R.randint(1, 2)):
            k = R.choice(feats)
            base = list(scope)
            if k in ("opt", "minus") and self.safe: base = [v for v in vars_in(g) if v in scope]   # well designed
            if k == "opt":
                inner = list(base)
                og = self.group(inner, depth - 1, [f for f in feats if f != "sub"], n=R.randint(1, 2))
                if R.random() < 0.25 and "filter" in feats: self.addf(og, self.boolexp([v for v in vars_in([x for x in og if x['el'] == 'tp']) if v in self.kind and v not in base], 1))
                g.append({"el": "opt", "g": og})
                self.hidden |= set(inner) - set(base)
                for v in inner:
                    if v not in scope: self.optv.append(v)
            elif k == "union":
                gs, outs = [], []
                for _ in range(R.choice([2, 2, 3])):
                    inner = list(base)
                    gs.append(self.group(inner, depth - 1, feats, n=R.randint(1, 2)))
                    outs.append([v for v in inner if v not in base])
                # let branches share a variable name now and then
                if len(outs[0]) and len(outs[1]) and R.random() < 0.6:
                    a, b = R.choice(outs[0]), R.choice(outs[1])
                    if self.kind[a] == self.kind[b] and b not in outs[0] and a not in outs[1]:
                        gs[1] = rename(gs[1], b, a)
                        outs[1] = [a if v == b else v for v in outs[1]]
                        self.kind.pop(b, None)
                g.append({"el": "union", "gs": gs})
                for o in outs:
                    for v in o:
                        if v not in self.optv: self.optv.append(v)
            elif k == "minus":
                inner = list(base)
                g.append({"el": "minus", "g": self.group(inner, depth - 1, [f for f in feats if f in ("filter", "union", "group", "opt")], n=R.randint(1, 2))})
                for v in inner:
                    if v not in base: self.kind.pop(v, None)
            elif k == "group":
                inner = list(base)
                g.append({"el": "group", "g": self.group(inner, depth - 1, feats, n=R.randint(1, 2))})
                for v in inner:
                    if v not in scope and v not in self.optv: scope.append(v)
            elif k == "filter":
                self.addf(g, self.boolexp([v for v in (mine if self.safe and R.random() < 0.6 else vars_in(g)) if v in self.kind], 2), R.random() < 0.4)
            elif k == "bind":
                ee = self.strexp(mine, 1)
                if R.random() < 0.6: ee = E(R.choice("+-*"), self.numexp(mine, 0), self.numexp(mine, 0))
                v = self.fresh("num" if ee["f"] in ("+", "-", "*", "/", "abs", "neg") else "bindv")
                g.append({"el": "bind", "e": ee, "v": v})
                self.binds.append(v)
            elif k == "sub":
                inner = []
                sg = self.group(inner, 0, [], n=R.randint(1, 2))
                share = [v for v in inner if self.kind[v] == "ent"]
                mine = [v for v in base if self.kind[v] == "ent"]
                if share and mine and R.random() < 0.8:
                    a, b = R.choice(share), R.choice(mine)
                    sg = rename(sg, a, b); self.kind.pop(a, None)
                    inner = [b if v == a else v for v in inner]
                pv = R.sample(inner, R.randint(1, len(inner))) if inner else None
                if pv:
                    for v in inner:
                        if v not in pv: self.kind.pop(v, None) if v not in base else None
                    g.append({"el": "sub", "q": query(sg, pv, distinct=R.random() < 0.4)})
                    for v in pv:
                        if v not in scope: scope.append(v)
        return g
    def addf(self, g, e, tight=False):
        if e is not None: g.append({"el": "filter", "e": e, "tight": tight})
    def start(self, safe=True):
        self.kind, self.nv, self.hidden, self.optv, self.binds, self.safe = {}, 0, set(), [], [], safe

def rename(x, a, b):
    if isinstance(x, dict):
        return {k: (b if k == "v" and v == a else rename(v, a, b)) for k, v in x.items()}
    if isinstance(x, list):
        return [b if y == a else rename(y, a, b) for y in x]
    return x

def vars_in(x, out=None):
    """variables a group can bind, in order of appearance (not those only in filters or minus)"""
    out = [] if out is None else out
    for e in x:
        k = e["el"]
        if k in ("tp", "path"):
            for t in e["tp"]:
                if "v" in t and t["v"] not in out: out.append(t["v"])
        elif k in ("group", "opt"): vars_in(e["g"], out)
        elif k == "union":
            for y in e["gs"]: vars_in(y, out)
        elif k == "bind":
            if e["v"] not in out: out.append(e["v"])
        elif k == "sub":
            for v in e["q"]["vars"]:
                if v not in out: out.append(v)
    return out
