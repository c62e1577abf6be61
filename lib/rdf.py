"""Terms, term tables and text forms shared by the generators."""
import re
XSD = "http://www.w3.org/2001/XMLSchema#"
NUMT = {XSD + t for t in ("integer", "decimal", "double", "float", "long")}

def _cs(s):
    return [ord(c) for c in s]

def unescape(s):
    out, i = [], 0
    m = {"n": "\n", "t": "\t", "r": "\r", '"': '"', "\\": "\\", "'": "'", "b": "\b", "f": "\f"}
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            d = s[i + 1]
            if d == "u" and i + 6 <= len(s):
                out.append(chr(int(s[i + 2:i + 6], 16))); i += 6; continue
            if d == "U" and i + 10 <= len(s):
                out.append(chr(int(s[i + 2:i + 10], 16))); i += 10; continue
            if d in m:
                out.append(m[d]); i += 2; continue
        out.append(c); i += 1
    return "".join(out)

def split_lit(t):
    """N-Triples literal -> (lexical form as written between the quotes, language tag, datatype iri)"""
    j = t.rindex('"')
    body, suf = t[1:j], t[j + 1:]
    if suf.startswith("@"):
        return body, suf[1:], ""
    if suf.startswith("^^<"):
        return body, "", suf[3:-1]
    return body, "", ""

def record(t):
    """what term t (N-Triples form) is, for the specification"""
    r = {"s": t, "ty": "other", "n": 0, "cs": [], "tag": "", "dt": "", "dtcs": [], "lex": [], "tagcs": [], "fl": False}
    if t.startswith("<"):
        r["ty"] = "iri"; r["cs"] = _cs(t[1:-1]); r["lex"] = r["cs"]
    elif t.startswith("_:"):
        r["ty"] = "bn"; r["cs"] = _cs(t[2:]); r["lex"] = r["cs"]
    elif t.startswith('"'):
        body, tag, dt = split_lit(t)
        lex = body          # terms are in stored form: escapes are decoded
        r["lex"] = _cs(lex)
        r["tag"], r["dt"] = tag or dt, dt
        r["tagcs"] = _cs(tag)
        if tag:
            r["ty"] = "lang"; r["cs"] = _cs(lex); r["dtcs"] = _cs("http://www.w3.org/1999/02/22-rdf-syntax-ns#langString")
        elif dt in ("", XSD + "string"):
            r["ty"] = "str"; r["cs"] = _cs(lex); r["tag"] = ""; r["dtcs"] = _cs(XSD + "string")
        else:
            r["dtcs"] = _cs(dt); r["cs"] = _cs(lex)
            if dt in NUMT:
                try:
                    v = float(lex) * 100
                    r["fl"] = dt in (XSD + "double", XSD + "float")
                    if abs(v) >= 2 ** 30: v = (1 if v > 0 else -1) * (10 ** 9 + int(abs(v) ** 0.5 // 1000))     # beyond TLC's integers: only the order is kept
                    if True:
                        r["ty"] = "num"; r["n"] = int(round(v)); r["tag"] = ""; r["cs"] = []
                except ValueError:
                    pass
            elif dt == XSD + "boolean":
                if lex in ("true", "1", "false", "0"): r["ty"] = "bool"; r["n"] = 1 if lex in ("true", "1") else 0
            elif dt in (XSD + "date", XSD + "dateTime"):
                r["ty"] = "date" if dt == XSD + "date" else "dtime"
    return r

class Terms:
    """term table: term string -> 1-based index, shared by all traces of one validation batch"""
    def __init__(self):
        self.ix, self.l = {}, []
    def id(self, t):
        if t is None:
            return 0
        i = self.ix.get(t)
        if i is None:
            i = len(self.l) + 1
            self.ix[t] = i
            self.l.append(record(t))
        return i
    def tr(self, ts):
        return [[self.id(x) for x in t] for t in ts]

def iri(s): return "<" + s + ">"
def lit(s): return '"' + s + '"'
def num(v, t="integer"): return '"%s"^^<%s%s>' % (v, XSD, t)
def nt(ts): return "".join("%s %s %s .\n" % tuple(t) for t in ts)

# ---------------------------------------------------------------- query text
RDFTYPE = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"
class Plain:
    """requests written in one fixed way"""
    def term(self, t, pos="o"): return t
    def var(self, v): return "?" + v
    def kw(self, k): return k
    def triples(self, ts): return " ".join("%s %s %s ." % tuple(t) for t in ts)
    def wrap(self, text): return text
class Spelled(Plain):
    """the same requests in the other ways SPARQL lets one write them: prefixed names, `a`, bare numbers and booleans,
    predicate and object lists, keywords in any case, comments and line ends"""
    def __init__(self, R):
        self.R, self.pre, self.rate = R, {}, R.choice([0.15, 0.5, 0.9])
    def kw(self, k):
        R, r = self.R, self.rate
        if R.random() < r: k = R.choice([k.lower(), k.capitalize(), k])
        if R.random() < r * 0.2: k += R.choice(["\n", "  ", "\t", " # a comment: { ?x <p> \"\n", " #\n"])
        return k
    def var(self, v): return ("$" if self.R.random() < self.rate * 0.3 else "?") + v
    def prefixed(self, t):
        b = t[1:-1]
        cut = [k for k in range(1, len(b) + 1) if re.match("^[A-Za-z0-9_]*$", b[k:])]
        if not cut or not re.match("^[^<>\"{}|^`\\\\ ]*$", b): return t
        k = self.R.choice(cut[:1] + cut[-2:] + cut)
        if b[:k] not in self.pre:
            self.pre[b[:k]] = [x for x in ["", "e", "pre", "P_1", "a", "select", "x-y"] + ["n%d" % i for i in range(99)] if x not in self.pre.values()][self.R.randrange(5)]
        return self.pre[b[:k]] + ":" + b[k:]
    def term(self, t, pos="o"):
        R = self.R
        if R.random() > self.rate: return t
        if t.startswith("<"):
            if pos == "p" and t == RDFTYPE and R.random() < 0.7: return "a"
            return self.prefixed(t)
        if pos in "oe":
            m = re.match('^"(.*)"(@[A-Za-z-]+|)$', t, re.S)
            if m and R.random() < 0.5:
                q = R.choice("'\"")
                one = {"\n": "\\n", "\r": "\\r", "\\": "\\\\", q: "\\" + q, "\t": R.choice(["\\t", "\t"]), "\f": "\\f", "\b": "\\b", "'\"".replace(q, ""): R.choice(["", "\\"]) + "'\"".replace(q, "")}
                return q + "".join(one.get(c, c) for c in m.group(1)) + q + m.group(2)
            m = re.match('^"(.*)"\\^\\^(<.*>)$', t, re.S)
            if m:
                lx, dt = m.groups()
                if R.random() < 0.6:
                    if dt == "<%sinteger>" % XSD and re.match("^[-+]?[0-9]+$", lx): return lx
                    if dt == "<%sdecimal>" % XSD and re.match("^[-+]?[0-9]*\\.[0-9]+$", lx): return lx
                    if dt == "<%sdouble>" % XSD and re.match("^[-+]?[0-9]+(\\.[0-9]*)?[eE][-+]?[0-9]+$", lx): return lx
                    if dt == "<%sboolean>" % XSD and lx in ("true", "false"): return lx
                if pos == "o": return '"%s"^^%s' % (lx, self.prefixed(dt))
        return t
    def triples(self, ts):
        R, out, i = self.R, "", 0
        while i < len(ts):
            s, p, o = ts[i]
            out += "%s %s %s" % (s, p, o); i += 1
            while i < len(ts) and ts[i][0] == s and R.random() < self.rate:
                if ts[i][1] == p and R.random() < 0.8: out += R.choice([" , ", ","]) + ts[i][2]
                else: p = ts[i][1]; out += R.choice([" ; ", " ;\n "]) + "%s %s" % (p, ts[i][2])
                i += 1
            out += " . " if i < len(ts) or R.random() > self.rate * 0.5 else " "
        return out.rstrip()
    def wrap(self, text):
        return "".join("%s %s: <%s>%s" % (self.R.choice(["PREFIX", "prefix", "Prefix"]), n, ns, self.R.choice(["\n", " "])) for ns, n in self.pre.items()) + text
STYLE = Plain()
def spelled(R, make):
    """make() with requests written by Spelled"""
    global STYLE
    STYLE = Spelled(R)
    try: return STYLE.wrap(make())
    finally: STYLE = Plain()

def term_text(t, pos="o"):
    return STYLE.var(t["v"]) if "v" in t else STYLE.term(t["t"], pos)
def tps_text(tps, star=None):
    """triple patterns; star: which of them are paths"""
    return STYLE.triples([(term_text(s, "s"), term_text(p, "p") + ("*" if star and star[i] else ""), term_text(o)) for i, (s, p, o) in enumerate(tps)])

PREC = {"||": 1, "&&": 2, "=": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "in": 3, "notin": 3, "+": 4, "-": 4, "*": 5, "/": 5}

def ex_text(e, top=True, tight=False):
    f, a = e["f"], e["a"]
    if f == "var": return STYLE.var(e["v"])
    if f == "const": return STYLE.term(e["t"], "e")
    if f == "bound": return "BOUND(%s)" % STYLE.var(e["v"])
    if f == "!": return "(!%s)" % ex_text(a[0], False)
    if f == "neg": return "(-%s)" % ex_text(a[0], False)
    if f in PREC and f not in ("in", "notin"):
        l, r = a
        # left-associative chains of arithmetic are written without parentheses when asked to
        lt = ex_text(l, False, tight)
        if tight and l["f"] in ("+", "-", "*") and PREC[l["f"]] >= PREC[f] and lt.startswith("("):
            lt = lt[1:-1]
        s = "%s %s %s" % (lt, f, ex_text(r, False, tight))
        return s if top and not tight else "(" + s + ")"
    if f in ("in", "notin"):
        return "(%s %s (%s))" % (ex_text(a[0], False), "IN" if f == "in" else "NOT IN", ", ".join(ex_text(x, False) for x in a[1:]))
    names = {"isiri": "ISIRI", "isliteral": "ISLITERAL", "isnumeric": "ISNUMERIC", "str": "STR", "lang": "LANG",
             "langmatches": "LANGMATCHES", "datatype": "DATATYPE", "contains": "CONTAINS", "strstarts": "STRSTARTS",
             "ucase": "UCASE", "lcase": "LCASE", "concat": "CONCAT", "abs": "ABS", "if": "IF", "year": "YEAR", "month": "MONTH", "day": "DAY", "hours": "HOURS", "minutes": "MINUTES"}
    if f == "regex":
        return "REGEX(%s, %s%s)" % (ex_text(a[0]), ex_text(a[1]), ', "i"' if e["ci"] else "")
    return "%s(%s)" % (names[f], ", ".join(ex_text(x) for x in a))

def group_text(g):
    out, K, i = [], STYLE.kw, 0
    while i < len(g):
        x = g[i]; i += 1
        k = x["el"]
        if k in ("tp", "path"):
            run = [x]
            while i < len(g) and g[i]["el"] in ("tp", "path"): run.append(g[i]); i += 1
            out.append(tps_text([y["tp"] for y in run], [y["el"] == "path" for y in run]))
            if i < len(g) and not out[-1].endswith("."): out[-1] += " ."
        elif k == "group": out.append(group_text(x["g"]))
        elif k == "union": out.append((" " + K("UNION") + " ").join(group_text(y) for y in x["gs"]))
        elif k == "opt": out.append(K("OPTIONAL") + " " + group_text(x["g"]))
        elif k == "minus": out.append(K("MINUS") + " " + group_text(x["g"]))
        elif k == "filter": out.append(K("FILTER") + " (%s)" % ex_text(x["e"], tight=x.get("tight", False)))
        elif k == "bind": out.append(K("BIND") + "(%s %s %s)" % (ex_text(x["e"]), K("AS"), STYLE.var(x["v"])))
        elif k == "sub": out.append("{ " + select_text(x["q"]) + " }")
    return "{ " + " ".join(out) + " }"

def select_text(q):
    if q.get("ask"):
        return STYLE.kw("ASK") + " " + group_text(q["where"])
    h = []
    if q["star"]:
        h = ["*"]
    else:
        am = {a["v"]: a for a in q["aggs"]}
        em = {e["v"]: e for e in q["exprs"]}
        for v in q["vars"]:
            if v in am:
                a = am[v]
                h.append("(%s(%s%s) AS ?%s)" % (a["fn"].upper(), "DISTINCT " if a["distinct"] else "",
                                                 "*" if a["star"] else ex_text(a["e"]), v))
            elif v in em:
                h.append("(%s AS ?%s)" % (ex_text(em[v]["e"], tight=em[v].get("tight", False)), v))
            else:
                h.append(STYLE.var(v))
    K = STYLE.kw
    s = "%s %s%s %s %s" % (K("SELECT"), K("DISTINCT") + " " if q["distinct"] else "", " ".join(h), K("WHERE"), group_text(q["where"]))
    if q["group"]:
        s += " " + K("GROUP") + " " + K("BY") + " " + " ".join(STYLE.var(v) for v in q["group"])
    if q["order"]:
        s += " " + K("ORDER") + " " + K("BY") + " " + " ".join(("DESC(%s)" if o["desc"] else "ASC(%s)") % ex_text(o["e"]) for o in q["order"])
    if q["limit"] >= 0:
        s += " " + K("LIMIT") + " %d" % q["limit"]
    if q["offset"] > 0:
        s += " " + K("OFFSET") + " %d" % q["offset"]
    return s

def enc(x, T):
    """replace every term string {"t": ...} of an AST by its index"""
    if isinstance(x, dict):
        if "t" in x and "f" not in x:
            return {"id": T.id(x["t"])}
        r = {k: enc(v, T) for k, v in x.items() if k not in ("t", "tight", "ask")}
        if "t" in x:
            r["id"] = T.id(x["t"])
        return r
    if isinstance(x, list):
        return [enc(y, T) for y in x]
    return x

def V(v): return {"v": v}
def C(t): return {"t": t}
def E(f, *a, **k):
    r = {"f": f, "a": list(a), "v": "", "id": 0, "ci": False}
    r.update(k)
    return r
def EV(v): return E("var", v=v)
def EC(t): return E("const", t=t)
def query(where, vars=None, **k):
    q = {"star": vars is None, "vars": vars or [], "distinct": False, "where": where, "group": [], "aggs": [], "exprs": [],
         "order": [], "limit": -1, "offset": 0}
    q.update(k)
    return q
