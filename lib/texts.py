"""Documents: the same set of triples written in many ways (N-Triples and Turtle)."""
from rdf import *

def esc(s, R):
    """a lexical form as it may be written between double quotes"""
    out = []
    for c in s:
        if c == '"': out.append('\\"')
        elif c == "\\": out.append("\\\\")
        elif c == "\n": out.append("\\n")
        elif c == "\r": out.append("\\r")
        elif c == "\t": out.append("\\t" if R.random() < 0.7 else c)
        elif ord(c) > 127 and R.random() < 0.5: out.append("\\u%04x" % ord(c) if ord(c) < 65536 else "\\U%08x" % ord(c))
        else: out.append(c)
    return "".join(out)

def wterm(t, R, pre, bare=True):
    """how a term may be written; t is the stored form ("lex" unescaped for literals)"""
    if t.startswith("<_:"): return t[1:-1]
    if t.startswith("<"):
        for p, ns in pre.items():
            l = t[1:-1]
            if l.startswith(ns) and l[len(ns):].isalnum() and R.random() < 0.6: return p + ":" + l[len(ns):]
        return t
    j = t.rindex('"'); body, suf = t[1:j], t[j + 1:]
    if pre and bare:
        if suf == "^^<%sinteger>" % XSD and R.random() < 0.4: return body
        if suf == "^^<%sboolean>" % XSD and R.random() < 0.4: return body
        if suf == "^^<%sdecimal>" % XSD and "." in body and R.random() < 0.4: return body
        if suf.startswith("^^<" + XSD) and "xsd" in pre and R.random() < 0.4: suf = "^^xsd:" + suf[3 + len(XSD):-1]
        if R.random() < 0.15 and '"""' not in body and not body.endswith('"') and "\\" not in body: return '"""' + body + '"""' + suf
    return '"' + esc(body, R) + '"' + suf

PRE = {"ex": "http://ex.org/ns#", "xsd": XSD, "o": "http://other.example/"}

def document(ts, R, turtle=None):
    """a document with exactly the triples ts (stored forms), some of them more than once"""
    turtle = R.random() < 0.5 if turtle is None else turtle
    ts = list(ts); R.shuffle(ts)
    ts += [R.choice(ts) for _ in range(R.randint(0, 3)) if ts]
    if not turtle:
        out = []
        for t in ts:
            if R.random() < 0.08: out.append(R.choice(["# a comment", "", "   ", "# <a> <b> <c> ."]))
            sp = R.choice([" ", " ", "\t", "  "])
            l = sp.join(wterm(x, R, {}) for x in t) + R.choice([" .", " .", "\t.", "."])
            if R.random() < 0.05: l += " # " + R.choice(["note", "<a> <b> <c> ."])
            out.append(l)
        return R.choice(["\n", "\n", "\r\n"]).join(out) + R.choice(["\n", "\n", ""])
    out = ["@prefix %s: <%s> ." % x for x in PRE.items()]
    i = 0
    while i < len(ts):
        s = ts[i][0]
        grp = [ts[i]]; i += 1
        if R.random() < 0.6:
            grp += [t for t in ts[i:] if t[0] == s]; ts = ts[:i] + [t for t in ts[i:] if t[0] != s]
        parts, last = [], None
        grp.sort(key=lambda t: t[1])
        for t in grp:
            o = wterm(t[2], R, PRE)
            if t[1] == last and R.random() < 0.7: parts[-1] += R.choice([", ", " , ", ",\n  "]) + o
            else:
                p = "a" if t[1] == "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>" and R.random() < 0.7 else wterm(t[1], R, PRE)
                parts.append(p + " " + o)
            last = t[1]
        out.append(wterm(s, R, PRE) + " " + R.choice([" ; ", " ;\n    "]).join(parts) + R.choice([" .", " .\n"]))
        if R.random() < 0.1: out.append("# comment with <a> <b> <c> .")
    return "\n".join(out) + "\n"

LEX = ["x\"@en", "x\"^^<y>", "^^<k>", "", "a", "a b", 'say "hi"', "back\\slash", "line\nbreak", "tab\there", "été", "日本", "𝄞 clef", "<tag>", "a.b", "#no comment", "@en", "^^x", "trailing ", " lead",
       "x" * 120, "'q'", ". . .", "{}", "%20", "a\\", '"']

PIECES = ["\\"] * 5 + ['"'] * 5 + ["\n", "\t", "\r", "a", "b ", "é", "^^", "@en", "<", ">", ".", " .", "'", "u0041", "n", "𝄞", "#", "%", "{", "?x"]
def lex(R):
    """the text of a literal"""
    return R.choice(LEX) if R.random() < 0.5 else "".join(R.choice(PIECES) for _ in range(R.randint(1, 7)))

def rich_triples(R, n, big=False):
    ents = ["<http://ex.org/ns#%s>" % c for c in "abcdef"] + ["<http://other.example/x%d>" % i for i in range(4)] + ["<e%d>" % i for i in range(4)]
    ents += ["<_:b%d>" % i for i in range(3)] + ["<http://ex.org/ns#a/%s>" % ("q" * R.choice([1, 30, 200])), "<urn:x:1>", "<http://ex.org/?q=1&r=%20#f>"]
    if big: ents += ["<http://ex.org/ns#big%d>" % i for i in range(n // 3)]
    preds = ["<http://ex.org/ns#p%d>" % i for i in range(5)] + ["<p>", "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"]
    out = []
    for _ in range(n):
        r = R.random()
        if r < 0.45: o = R.choice(ents)
        elif r < 0.75: o = '"%s"%s' % (lex(R), R.choice(["", "", "", "@en", "@fr-CA", "^^<http://ex.org/ns#dt>"]))
        elif r < 0.9: o = num(R.choice([0, 7, -3, 42, 12345]) if not big else R.randrange(n))
        elif r < 0.95: o = num(R.choice(["1.5", "-0.25"]), "decimal")
        else: o = '"%s"^^<%sboolean>' % (R.choice(["true", "false"]), XSD)
        out.append((R.choice(ents), R.choice(preds), o))
    return out
