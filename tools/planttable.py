bug("ts-commit-id", "P13",
    [("Database/Txn_manager.cpp", "\treturn cnt.load();\n", "\treturn cnt.load() - 1;\n")],
    '''
s.fresh("<a> <p> <b> .\\n")
s("tmopen")
w = s("begin", iso=2)["tid"]
s("tquery", tid=w, q="INSERT DATA { <a> <p> <c> }")
r = s("begin", iso=2)["tid"]
s("commit", tid=w)
expect(s.tq(r, "SELECT ?o WHERE { <a> <p> ?o }"), [("<b>",)], "a snapshot older than the commit")
''', "a snapshot transaction that begins between the update and the commit of a writer, directly before the commit",
    "the newest snapshot sees a commit made after it began")

bug("latch-not-recorded", "P13",
    [("KVstore/KVstore.cpp", "\t\tif(IS_SI && latched && FirstRead)\n\t\t\ttxn->ReadSetInsert(_objid, Transaction::IDType::OBJECT);\n", "\t\tif(IS_SI && latched && FirstRead && addset.size() + delset.size() != 0)\n\t\t\ttxn->ReadSetInsert(_objid, Transaction::IDType::OBJECT);\n", 2)],
    '''
s.fresh("<a> <p> <b> .\\n<c> <q> <b> .\\n")
s("tmopen")
r = s("begin", iso=1)["tid"]
expect(s.tq(r, "SELECT ?s WHERE { ?s <p> <b> }"), [("<a>",)], "read")
expect(s.tq(r, "DELETE DATA { <a> <p> <b> }"), 1, "an update without a rival")
expect(s("commit", tid=r)["ret"], 0, "its commit")
''', "a serializable transaction that reads an object with a fixed predicate and then updates that object itself",
    "the transaction's own shared latch is not recognised when it updates the object, so it is refused although there is no rival")

bug("no-latch-unversioned", "P14",
    [("KVstore/IVArray/IVEntry.cpp", "\t\telse if(ret == 1 && first_read){\n\t\t\tlatched = glatch.trysharedlatch(txn->GetTID());", "\t\telse if(ret == 1 && first_read && vList.size() > 1){\n\t\t\tlatched = glatch.trysharedlatch(txn->GetTID());")],
    '''
s.fresh("<x> <on> <yes> .\\n<y> <on> <yes> .\\n<x> <k> <u> .\\n<y> <k> <v> .\\n")
s("tmopen")
a, b = s("begin", iso=1)["tid"], s("begin", iso=1)["tid"]
ra = s.tq(a, "SELECT ?p ?o WHERE { <y> ?p ?o }")
rb = s.tq(b, "SELECT ?p ?o WHERE { <x> ?p ?o }")
ua = s.tq(a, "INSERT DATA { <x> <off> <n1> }")
ub = s.tq(b, "INSERT DATA { <y> <off2> <n2> }")
ca, cb = s("commit", tid=a)["ret"], s("commit", tid=b)["ret"]
both = ua == 1 and ub == 1 and ca == 0 and cb == 0
expect(both, False, "write skew of two serializable transactions")
''', "two concurrent serializable transactions that each read what the other writes, on entities no transaction has touched before",
    "serializable reads of keys without versions take no latch, so write skew commits")

bug("rollback-self-object", "P12",
    [("KVstore/KVstore.cpp", "\tfor(auto &it: objWset){\n\t\tif(this->invalid_values(this->objID2values, it, txn, false) == false) ret2 = false;	\n", "\tfor(auto &it: objWset){\n\t\t//an entity that was written as a subject is already invalidated\n\t\tif(subWset.find(it) != subWset.end()) continue;\n\t\tif(this->invalid_values(this->objID2values, it, txn, false) == false) ret2 = false;	\n")],
    '''
s.fresh("<a> <p> <b> .\\n<b> <p> <c> .\\n<x> <p> <a> .\\n")
s("tmopen")
t = s("begin", iso=2)["tid"]
expect(s.tq(t, "INSERT DATA { <a> <q> <b> . <b> <q> <c> }"), 2, "updates")
expect(s("rollback", tid=t)["ret"], 0, "rollback")
t = s("begin", iso=2)["tid"]
expect(s.tq(t, "INSERT DATA { <x> <q> <b> }"), 1, "update after the rollback")
expect(s("commit", tid=t)["ret"], 0, "commit after the rollback")
''', "a transaction that writes an entity both as subject and as object and is rolled back; a later transaction on the entity as object",
    "the object version of the rolled back transaction and its latch stay behind")

bug("literal-vacuum-key", "P15",
    [("KVstore/KVstore.cpp", "\t\t\t\tthis->removeKey(this->objID2values, _obj_id);\n\t\t\t}\n\t\t\tcontinue;\n\t\t}\n\t\t\n\t\tif(base_empty == true){\n\t\t\tthis->addValueByKey(this->objID2values, _obj_id, (char*)_tmp, _len);\n\t\t\t\n", "\t\t\t\tthis->removeKey(this->objID2values_literal, _obj_id);\n\t\t\t}\n\t\t\tcontinue;\n\t\t}\n\t\t\n\t\tif(base_empty == true){\n\t\t\tthis->addValueByKey(this->objID2values, _obj_id, (char*)_tmp, _len);\n\t\t\t\n")],
    '''
s.fresh('<a> <p> "one" .\\n<b> <p> "two" .\\n<c> <p> <a> .\\n')
s("tmopen")
t = s("begin", iso=2)["tid"]
s.tq(t, 'DELETE DATA { <a> <p> "one" }')
s("commit", tid=t)
s("checkpoint")
s.q('INSERT DATA { <c> <p> "one" }')
expect(s.q('SELECT ?s WHERE { ?s <p> "one" }'), [("<c>",)], "subjects of the literal")
''', "a committed transaction that removes the last triple of a literal, a checkpoint, and a later insertion that uses the literal (or its id) again",
    "the checkpoint leaves the literal's old object list in the base index")

bug("minus-chain", "P03",
    [("Query/TempResult.cpp", "\t\t\t\ttemp[j - 1].doMinus(x.results[j], r.results[pos]);\n", "\t\t\t\tthis->results[i].doMinus(x.results[j], r.results[pos]);\n")],
    '''
s.fresh("<a> <p> <b> .\\n<c> <p> <d> .\\n<e> <p> <f> .\\n<a> <q> <x> .\\n<c> <r> <y> .\\n")
expect(s.q("SELECT ?s WHERE { ?s <p> ?o . MINUS { { ?s <q> ?x } UNION { ?s <r> ?y } } }"), [("<e>",)], "MINUS of a union")
''', "a MINUS whose right side is a union of branches that bind different variables",
    "only the last branch of the union is subtracted")

bug("avg-distinct", "P05",
    [("Query/GeneralEvaluation.cpp", '\t\t\t\t\t\t\t\t\ttmp.term_value = "\\"" + to_string(count) + "\\"^^<http://www.w3.org/2001/XMLSchema#integer>";\n\t\t\t\t\t\t\t\t\ttmp.deduceTypeValue();\n\n\t\t\t\t\t\t\t\t\tnumeric_sum = numeric_sum / tmp;\n', '\t\t\t\t\t\t\t\t\ttmp.term_value = "\\"" + to_string(end - begin + 1) + "\\"^^<http://www.w3.org/2001/XMLSchema#integer>";\n\t\t\t\t\t\t\t\t\ttmp.deduceTypeValue();\n\n\t\t\t\t\t\t\t\t\tnumeric_sum = numeric_sum / tmp;\n', 0)],
    '''
I = "^^<http://www.w3.org/2001/XMLSchema#integer>"
s.fresh(''.join('<%s> <p> "%d"%s .\\n' % (x, n, I) for x, n in (("a", 2), ("b", 2), ("c", 4), ("d", 4))))
r = s.q("SELECT (AVG(DISTINCT ?v) AS ?m) WHERE { ?s <p> ?v }")
expect(float(r[0][0].split('"')[1]), 3.0, "average of the distinct values")
''', "AVG(DISTINCT ...) over a group in which a value repeats",
    "the sum of the distinct values is divided by the number of solutions")

bug("prefix-survives", "P10",
    [("Parser/QueryParser.h", "\tstd::map<std::string, std::string> prefix_map;", "\tstatic std::map<std::string, std::string> prefix_map;"),
     ("Parser/QueryParser.cpp", "void QueryParser::replacePrefix(string &str)\n", "map<string, string> QueryParser::prefix_map;\n\nvoid QueryParser::replacePrefix(string &str)\n"),
     ],
    '''
s.fresh("<http://e/a> <http://e/p> <http://e/b> .\\n")
s.q("PREFIX e: <http://e/> SELECT ?o WHERE { e:a e:p ?o }")
r = s("query", q="INSERT DATA { e:a e:p e:new }")
if r.get("ret", -1) >= 0 and "exc" not in r: fail("an update with an undefined prefix was accepted: %r" % r)
expect(s.q("SELECT ?o WHERE { <http://e/a> <http://e/p> ?o }"), [("<http://e/b>",)], "content")
''', "a request that uses a prefix it does not define after an earlier request in the process defined it",
    "prefix definitions leak from one request to the next, so an invalid request is carried out")

bug("limit-literal", "P09",
    [("Database/Database.cpp", "\tfwrite(&(this->limitID_literal), sizeof(int), 1, fp);\n\tbp = this->freelist_literal;\n\twhile (bp != NULL)\n\t{\n\t\tfwrite(&(bp->num), sizeof(int), 1, fp);\n\t\ttp = bp->next;\n\t\tbp = tp;\n", "\tfwrite(&(this->literal_num), sizeof(int), 1, fp);\n\tbp = this->freelist_literal;\n\twhile (bp != NULL)\n\t{\n\t\tfwrite(&(bp->num), sizeof(int), 1, fp);\n\t\ttp = bp->next;\n\t\tbp = tp;\n")],
    '''
s.fresh("".join('<a> <p> "l%d" .\\n' % i for i in range(6)))
s.q('DELETE DATA { <a> <p> "l1" . <a> <p> "l3" }')
s("save")
s.restart(); s("load")
s.q('INSERT DATA { <a> <p> "n1" . <a> <p> "n2" . <a> <p> "n3" . <a> <p> "n4" }')
expect([r[0] for r in s.q("SELECT ?o WHERE { <a> <p> ?o }")], sorted('"%s"' % x for x in ("l0", "l2", "l4", "l5", "n1", "n2", "n3", "n4")), "literals after reloading")
''', "literals removed, the database saved and loaded again, and then more new literals than were removed",
    "the id counter is restored too low, so a new literal gets the id of one that is in use")

bug("export-tab", "P11",
    [("Util/Util.cpp", '\t\tcase \'\\t\':\n\t\t\t_output += "\\\\t";\n\t\t\tbreak;\n\t\tcase \'\\"\':\n\t\t\t_output += "\\\\\\"";', '\t\tcase \'\\t\':\n\t\t\t_output += "\\\\t";\n\t\t\tbreak;\n\t\tcase \'\\"\':\n\t\t\t_output += (_raw_str[i - 1] == \'\\\\\') ? "\\"" : "\\\\\\"";')],
    '''
s.fresh('<a> <p> "x\\\\\\\\\\\\"y" .\\n<a> <p> "plain" .\\n')
want = s.q("SELECT ?o WHERE { <a> <p> ?o }")
f = s.text("out.nt", "")
s("export", file=f)
s("unload")
s("build", db="e", file=f)
if not s("load", db="e").get("ok"): fail("the exported document does not build")
r = s("query", db="e", q="SELECT ?o WHERE { <a> <p> ?o }")
from demo_lib import rows
expect(rows(r["json"]), want, "content built from the export")
''', "a literal with a backslash directly before a quote", "the exported text of the literal is not escaped, so building from it fails or differs")
