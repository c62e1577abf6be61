"""Writes known-findings.json: the recorded genuine defects (with the scenario that shows each) and the repaired ones."""
import json, os, sys
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VER, "lib"))
from rdf import *
from sgen import agg_of
B = lambda ts: {"do": "build", "ts": ts}
Q = lambda q: {"do": "q", "q": q}
tp = lambda s, p, o: {"el": "tp", "tp": [(V_(x[1:]) if x[0] == "?" else C(x)) for x in (s, p, o)]}
V_ = lambda v: {"v": v}
F = []
def f(i, prop, what, steps): F.append({"id": i, "property": prop, "what": what, "steps": steps})

T0 = [("<a>", "<p>", "<b>"), ("<b>", "<p>", "<b>"), ("<b>", "<q>", "<c>")]
f("selfloop", "P02", "a triple pattern with the same variable as subject and object (?x <p> ?x) crashes the process", [B(T0), Q(query([tp("?x", "<p>", "?x")], ["x"]))])
f("constgroup", "P03", "a group made only of triple patterns without variables joins as if it were empty", [B(T0), Q(query([tp("?x", "<p>", "<b>"), {"el": "group", "g": [tp("<b>", "<q>", "<c>")]}], ["x"]))])
f("substar", "P03", "SELECT * shows the variables a subquery does not project, under made-up names",
  [B([("<a>", "<p>", "<b>")]), Q(query([tp("?x", "<p>", "?z"), {"el": "sub", "q": query([tp("?x", "<p>", "?y")], ["x"])}]))])
f("outerfilter", "P03", "a FILTER inside an OPTIONAL does not see the variables of the group the OPTIONAL extends",
  [B([("<a>", "<age>", num(5)), ("<b>", "<age>", num(1)), ("<a>", "<min>", num(3)), ("<b>", "<min>", num(3))]),
   Q(query([tp("?x", "<age>", "?a"), {"el": "opt", "g": [tp("?x", "<min>", "?m"), {"el": "filter", "e": E(">", EV("a"), EC(num(3)))}]}]))])
f("predexpr", "P04", "an expression over a variable in predicate position reads an entity's name instead of the predicate's",
  [B(T0), Q(query([tp("<b>", "?p", "?o"), {"el": "filter", "e": E("=", EV("p"), EC("<q>"))}], ["o"]))])
f("exprdt", "P04", "a datatype written with a prefix inside an expression is not expanded (the existing test num1 expects the answer of that)",
  [B([("<a>", "<p>", num(5))]), {"do": "q", "q": query([tp("?s", "<p>", "?y"), {"el": "filter", "e": E("<", EV("y"), EC(num(7)))}], ["s"]), "text": 'PREFIX xsd: <http://www.w3.org/2001/XMLSchema#> SELECT ?s WHERE { ?s <p> ?y . FILTER(?y < "7"^^xsd:integer) }'}])
f("countpred", "P05", "COUNT of a variable in predicate position counts only the predicates whose number is also an entity's",
  [B([("<a>", "<p%d>" % i, "<a>") for i in range(4)]), Q(query([tp("<a>", "?p", "?o")], ["r"], aggs=[agg_of("count", EV("p"), False, "r")]))])
tq = lambda t, q: {"do": "tq", "t": t, "q": q}
f("phantom", "P14", "a serializable read that names a term the dictionary does not hold takes no latch, so two transactions can miss each other's insertions (write skew on new terms)",
  [B([("<a>", "<p>", "<x>"), ("<b>", "<q>", "<y>")]), {"do": "tmopen"}, {"do": "begin", "t": 0, "iso": 1}, {"do": "begin", "t": 1, "iso": 1},
   tq(0, query([tp("<n1>", "<p>", "?o")])), tq(1, query([tp("<n2>", "<q>", "?o")])), {"do": "tins", "t": 0, "ts": [("<n2>", "<q>", "<y>")]}, {"do": "tins", "t": 1, "ts": [("<n1>", "<p>", "<x>")]},
   {"do": "commit", "t": 1}, {"do": "commit", "t": 0}, {"do": "serial", "ts": [("<a>", "<p>", "<x>"), ("<b>", "<q>", "<y>")]}, {"do": "tmclose"}])
FIXED = """P03 e46dbe0 OPTIONAL with an empty right side and no shared variables kept no rows
P03 31c504e MINUS lost or duplicated rows when its right side was empty
P04 468ffb8 IN and NOT IN compared with the first list element only
P03 98b20c8 a projection dropped the rows that bind none of the projected variables
P02 0a9aeb8 variables joining two blocks of a basic graph pattern were dropped
P02 6d4a4ac a triple pattern without variables was ignored
P02 1f51cfe predicate-variable scans lost duplicates of non-DISTINCT queries
P07 812d267 DELETE/INSERT ... WHERE did not delete its delete template
P07 b0469ba batch removal used uninitialised ids for triples with unknown terms
P08 dc4a8f7 ids were handed out twice after many removals
P07 5e8e492 the subject count missed entities gaining or losing their outgoing triples
P08 db735c7 removing the last self-loop of an entity freed its id twice
P02 0adf27f a candidate filter dropped duplicates of non-DISTINCT queries
P04 dd8edbe LANGMATCHES was case sensitive and knew no language ranges
P06 0b257ae LIMIT cut rows before OFFSET, DISTINCT, aggregation or a join
P06 c866b17 ORDER BY over unbound, mixed or equal values was no ordering
P04 1056628 xsd:date values were read past their three fields
P05 @aggregates without GROUP BY@ aggregates without GROUP BY made several rows, or none
P04 @division by zero@ dividing by zero crashed the process and integer division truncated
P02 @projecting away a variable@ projecting away a variable lost duplicates next to a predicate variable
P07 @update templates@ update templates with unbound variables or literal subjects made triples
P01 @escapes beyond@ \\U escapes beyond the basic plane were truncated
P01 @JSON answers misread@ JSON answers misread literals whose text looks like a tag or a datatype
P01 @inside a long string@ a quote inside a long string swallowed the next character
P10 @unsupported property paths@ unsupported property paths were silently taken for a predicate
P03 @cross products lost@ cross products lost the string values (BIND, subquery results) of all but the first combination
P10 @INSERT DATA stored@ INSERT DATA stored variables and literal subjects as triples"""
if __name__ == "__main__":
    import re, subprocess
    log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    fx = []
    for l in FIXED.split("\n") + [x for x in open(os.path.join(VER, "tools", "fixed.txt")).read().split("\n") if x.strip()] if os.path.exists(os.path.join(VER, "tools", "fixed.txt")) else FIXED.split("\n"):
        m = re.match(r"(\w+) @(.*?)@ (.*)", l)
        if m:
            h = [a for a, s in log if m.group(2) in s]
            assert len(h) == 1, (l, h)
            l = "%s %s %s" % (m.group(1), h[0], m.group(3))
        fx.append("fixed: property=" + l)
    with open(os.path.join(VER, "known-findings.json"), "w") as o: json.dump({"findings": F, "fixed": fx}, o, indent=1)
    print(len(F), "findings,", len(fx), "fixed")
