TV = "trace validation with TLC against a TLA+ specification of the store"
prop("P01", "Loading a document stores exactly its set of triples",
     "Building a database from, or inserting, an N-Triples or Turtle document makes its content the union of the previous content and the set of triples the document denotes, however the document is written (order, repetitions, comments, prefixes, lists, escapes, long strings). The reported numbers of triples, entities, literals, predicates and subjects are those of that set.",
     ["inputs", "histories"], "every document over IRIs, blank nodes and literals with arbitrary text, and every sequence of documents loaded or removed",
     "the tests load a few fixed files and compare a few counts; the ways to write the same triples, and the ways batches meet existing content, are unbounded",
     ["Parser/TurtleParser.cpp", "Parser/RDFParser.cpp", "Database/Database.cpp", "KVstore/KVstore.cpp"],
     [("Turtle lexer and parser", "Parser/TurtleParser.cpp"), ("bulk build", "Database::build, encodeRDF_new, build_s2xx/o2xx/p2xx"), ("batch insert and remove", "Database::batch_insert, batch_remove")],
     [("triple set", "what a query for all triples answers")], "query answers, database counters, the id and index lists of the key-value store", TV,
     "documents up to 800 triples are generated from a set of triples; the specification's state is that set; every load, counter and content observation of the real code is validated by TLC")
prop("P02", "A basic graph pattern answers exactly its matches",
     "The answer of a query with a basic graph pattern is the multiset of all bindings that make every triple pattern a stored triple, whatever the order, number, shape and connectivity of the patterns, with constants or variables in any position. DISTINCT removes the duplicates and nothing else; ASK answers whether there is a match.",
     ["inputs"], "every stored set of triples and every basic graph pattern (cyclic, star, disconnected, constants only, predicate variables)",
     "the tests run a fixed list of queries on fixed data; join order and access path depend on the pattern's shape and on the data's statistics",
     ["Query/GeneralEvaluation.cpp", "Query/BGPQuery.cpp", "Database/Optimizer.cpp", "Database/Executor.cpp", "Query/PlanGenerator.cpp", "Query/FilterPlan.cpp"],
     [("plan generation", "PlanGenerator"), ("worst case optimal join steps", "Executor"), ("candidate filtering", "FilterPlan, GeneralEvaluation::fillCandList")],
     [("triple set", "stored triples"), ("solution multiset", "rows of the answer")], "rows of the JSON answer", TV,
     "bounded random data (up to 25 triples) and patterns (up to 6), each answer compared by TLC with the multiset defined in Sparql.tla; self-loop variable patterns are a known finding and not generated")
prop("P03", "OPTIONAL, UNION, MINUS, groups and subqueries follow the SPARQL algebra",
     "The answer of a query built from basic patterns with OPTIONAL, UNION, MINUS, nested groups, FILTER and subqueries is the multiset of solutions the SPARQL algebra defines, with unbound variables left out of a row. Rewriting done for speed does not change it.",
     ["inputs"], "every stored set of triples and every (well designed) group graph pattern",
     "the tests contain a few shapes; merging, pruning and candidate passing between the levels depend on which variables are shared, on emptiness of intermediate results and on nesting",
     ["Query/GeneralEvaluation.cpp", "Query/QueryTree.cpp", "Query/TempResult.cpp"],
     [("group evaluation and rewriting", "GeneralEvaluation::queryEvaluation, highLevel rewriting"), ("joins of intermediate results", "TempResult/TempResultSet::doJoin, doOptional, doMinus, doUnion")],
     [("triple set", "stored triples"), ("solution multiset", "rows of the answer")], "rows of the JSON answer", TV,
     "random nested groups to depth 2 over small data; OPTIONAL and MINUS bodies are well designed; filters only speak of their own group's variables (the rest are known findings)")
prop("P04", "FILTER and BIND evaluate expressions as SPARQL defines",
     "A FILTER keeps exactly the solutions whose expression has the effective boolean value true, with errors and unbound variables handled as SPARQL says, and BIND adds the value of its expression. This holds for comparisons, arithmetic, logic, IN, regular expressions, string, language and type functions over every kind of term.",
     ["inputs"], "every expression over the supported functions and every solution sequence",
     "each test uses one expression; the evaluator has a case per function and operand type, and combinations with logic and with unbound variables multiply",
     ["Query/TempResult.cpp", "Util/EvalMultitypeValue.cpp", "Parser/QueryParser.cpp"],
     [("expression evaluation", "TempResult::doComp"), ("typed values", "EvalMultitypeValue"), ("expression parsing", "QueryParser::buildCompTree")],
     [("solution multiset", "rows of the answer")], "rows of the JSON answer", TV,
     "well-typed random expressions to depth 2; ill-typed comparisons, expressions over predicate variables and a few BIND forms are known findings")
prop("P05", "Aggregates and GROUP BY compute over exactly the solutions of each group",
     "COUNT, SUM, AVG, MIN and MAX (with or without DISTINCT) are computed over exactly the solutions of each group, one row per group; without GROUP BY there is exactly one row, even over no solutions.",
     ["inputs"], "every group pattern, grouping and list of aggregates",
     "the tests aggregate a few fixed patterns; unbound values, empty groups, several aggregates, duplicates and pushed-down limits interact",
     ["Query/GeneralEvaluation.cpp", "Query/QueryTree.cpp"], [("aggregation", "GeneralEvaluation::getFinalResult")],
     [("groups", "partition of the solution multiset")], "rows of the JSON answer", TV,
     "random patterns, 0-2 grouping variables, 1-2 aggregates; AVG is compared within 0.01; MIN and MAX over numbers and dates only")
prop("P06", "ORDER BY, LIMIT, OFFSET and DISTINCT window the ordered solutions",
     "With ORDER BY the rows come in an order that sorts them by the keys; LIMIT and OFFSET then take exactly that many rows from there of the ordered (and, with DISTINCT, duplicate free) sequence. No row outside the full answer ever appears and none inside the window is missing.",
     ["inputs"], "every query with solution modifiers and every answer size",
     "the tests use a few limits on a few answers; early termination, top-k plans and streamed sorting take different paths by size, keys and pattern",
     ["Query/GeneralEvaluation.cpp", "Util/Stream.cpp", "Query/ResultSet.cpp", "Query/topk"],
     [("row limits in evaluation", "QueryTree::getRowLimit"), ("sorting", "Util/Stream.cpp"), ("window of the output", "ResultSet output_limit/output_offset")],
     [("solution sequence", "rows of the answer in order")], "ordered rows of the JSON answer", TV,
     "random ORDER BY keys (numbers, strings, dates, IRIs, unbound), limits and offsets around the answer size")
prop("P07", "Updates change the stored set exactly as requested and count it",
     "INSERT DATA and batch insertion add exactly the given triples, DELETE DATA and batch removal take away exactly those present, and DELETE/INSERT ... WHERE takes away and then adds the instances of its templates over the solutions before the update. Each answers the number of triples that really changed, and later queries and counters show exactly the new set.",
     ["histories", "inputs"], "every sequence of updates and queries on every initial content",
     "the tests apply a handful of updates; index maintenance, id reuse and counters depend on the history of insertions and removals",
     ["Database/Database.cpp", "KVstore/KVstore.cpp", "Query/GeneralEvaluation.cpp"],
     [("update entry point", "Database::query"), ("single and batch updates", "Database::insert, remove, batch_insert, batch_remove"), ("template instances", "GeneralEvaluation::prepareUpdateTriple")],
     [("triple set", "stored triples")], "update return codes, query answers, counters", TV,
     "histories of 12 updates with interleaved queries; each return code, counter and content is decided by TLC from the specification's state")
prop("P08", "Every index and the dictionary agree with the stored triples",
     "At all times every access path (by subject, predicate, object and each pair) lists exactly the stored triples that match its key, each degree equals its number of triples, and the dictionary is a bijection between the terms in use and their ids, both ways. No history of insertions, removals and id reuse makes two paths disagree.",
     ["histories", "inputs"], "every sequence of single and batch insertions and removals",
     "the tests never look at an index directly; a wrong list only shows through a query that happens to use it",
     ["KVstore/KVstore.cpp", "KVstore/IVArray/IVArray.cpp", "KVstore/SITree/SITree.cpp", "KVstore/ISArray/ISArray.cpp", "Database/Database.cpp"],
     [("index maintenance", "KVstore::updateTupleslist_*, updateInsertlist_*, updateRemovelist_*"), ("id allocation", "Database::allocEntityID, freeEntityID and friends")],
     [("s2values, o2values, p2values", "the three index families"), ("entity/literal/predicate dictionaries", "string to id and back")], "the key-value store's list and id functions", TV,
     "complete dump of all access paths, degrees and dictionary entries of the public KVstore interface, decided in StoreTrace.tla (ViewOK, DegOK, DictOK) after updates")
prop("P09", "Saved content survives unloading and loading",
     "After any sequence of updates, unloading the database (or saving it) and loading it again - in the same or a new process - gives the same content, counters, dictionary and indexes, and updates go on working from there.",
     ["histories"], "every sequence of updates, saves, unloads and loads",
     "the tests reload a database once or twice without updates in between; what is flushed depends on which blocks, caches and side files the history touched",
     ["Database/Database.cpp", "KVstore/KVstore.cpp", "KVstore/IVArray/IVArray.cpp", "StringIndex/StringIndex.cpp"],
     [("save and unload", "Database::save, unload"), ("flush of key-value structures", "KVstore::flush, IVArray::save, SITree::save, ISArray::save"), ("free id lists and counters", "Database::saveDBInfoFile, saveIDinfo")],
     [("triple set", "stored triples"), ("files of the database", "dictionary, index and info files")], "query answers, counters and dumps after loading", TV,
     "histories of 10 updates with reload probability 0.4 between steps, final reload, content, counters and dump")
prop("P10", "A refused request changes nothing",
     "A request that is malformed, unsupported or names undefined prefixes is answered with an error and has no effect: content, counters and indexes are as before and later requests work as if it had never been made.",
     ["inputs", "histories"], "every malformed request at every point of a history",
     "the tests send a few wrong queries; what a refused update leaves behind (locks, partial effects) shows only in what follows",
     ["Parser/QueryParser.cpp", "Database/Database.cpp"], [("parsing before any effect", "GeneralEvaluation::parseQuery"), ("lock release on errors", "Database::query")],
     [("triple set", "stored triples")], "error answers, then content, counters and dumps", TV,
     "malformed requests of about forty forms interleaved with updates and observations")
prop("P11", "Exporting and building again gives the same content",
     "The file an export writes is a document whose triples are exactly the database's: building a new database from it gives the same content, for every kind of term including text with quotes, escapes and non-ASCII characters.",
     ["inputs", "histories"], "every content reachable by loads and updates",
     "the tests export one plain data set; the text of literals decides whether the document reads back",
     ["Database/Database.cpp", "Parser/TurtleParser.cpp"], [("export", "Database::export_db"), ("Turtle lexer", "Parser/TurtleParser.cpp")],
     [("triple set", "stored triples")], "content of a database built from the export", TV, "histories with exports at several points, rebuilt and read in full")
TT = "trace validation with TLC of interleaved transactions against Txn.tla"
TXF = ["Database/Txn_manager.cpp", "Util/Transaction.cpp", "Util/Version.cpp", "KVstore/IVArray/IVEntry.cpp", "KVstore/IVArray/IVArray.cpp", "KVstore/KVstore.cpp", "Database/Database.cpp"]
TXS = [("committed triple set", "what read committed sees"), ("snapshot, own insertions and deletions per transaction", "what the transaction sees")]
prop("P12", "A transaction takes effect as a whole, or not at all",
     "What a transaction inserts and deletes is seen by itself at once, by others only after its commit and then in full; after a rollback, an abort or the closing of the transaction manager nothing of it remains in content, indexes, counters or dictionary. Its updates report the numbers of triples they change in its own view, and calls on unknown or ended transactions are refused with their documented codes and change nothing.",
     ["histories"], "every sequence of begin, query, update, commit and rollback calls, at every isolation level",
     "the tests run a handful of transactions; a triple inserted, deleted and inserted again, deletions of data committed but not merged yet, and terms first seen in a transaction that fails are combinations of histories",
     TXF, [("versions", "Version::add/remove, IVEntry::WriteVersion, InvalidExlusiveLatch"), ("commit and rollback", "Txn_manager::Commit, Abort; KVstore::ReleaseAllLocks, TransactionRollback")], TXS,
     "answers and return codes inside transactions; content, counters and dumps afterwards", TT,
     "histories of up to 30 calls by up to 5 transactions on random data; every answer, code and final dump judged by TLC")
prop("P13", "Reads and updates respect their isolation level",
     "A snapshot transaction reads the committed state of its beginning plus its own changes, a read committed one the latest committed state plus its own; no transaction reads uncommitted changes of another. An update that touches a triple another running transaction changed, or (above read committed) one committed since it began, is refused and aborts its transaction; nothing is refused without a rival that used the same index key.",
     ["schedules", "histories"], "every interleaving of the calls of any number of transactions at any levels",
     "the tests interleave one or two transactions in fixed ways; what is visible or refused depends on the order of begin, write, commit and read of all of them",
     TXF, [("version choice", "IVEntry::getLatestVersion, getProperVersion, checkVersion"), ("latches", "GLatch, KVstore::GetExclusiveLatches"), ("time stamps", "Txn_manager::ArrangeTID, ArrangeCommitID")], TXS,
     "answers and return codes inside transactions", "Mvcc.tla (version lists and latches as coded) model checked against Txn.tla; its simulated behaviours replayed; " + TT,
     "Mvcc.tla exhaustively for 2 keys, 3 transactions, 2 calls each (quick: 2 transactions, 3 calls); behaviours with 4 transactions, 3 keys and exact accept/refuse prediction; random histories of 36 calls by 6 transactions")
prop("P14", "Committed serializable transactions are serializable",
     "For transactions that all run at the serializable level, some serial order of the committed ones gives every answer and update count they saw and the final content.",
     ["schedules", "histories"], "every interleaving of the calls of serializable transactions",
     "a serialization cycle needs at least two transactions with crossing reads and writes in a particular order of begin and commit",
     TXF, [("shared and exclusive latches", "IVEntry::ReadVersion, GetExclusiveLatch; GLatch"), ("read and write sets", "Transaction::ReadSetInsert, KVstore::ReleaseAllLocks")], TXS,
     "answers and counts of the committed transactions, final content", "Mvcc.tla model checked for acyclic conflict graphs; simulated and random schedules executed and decided by a search over serial orders in TxnTrace.tla",
     "Mvcc.tla exhaustively for 3 serializable transactions, 2 keys, 3 calls each (quick: 2 calls); 400 executed schedules of up to 5 transactions, all serial orders tried; reads of terms unknown to the dictionary take no latch (known finding) and are not generated")
prop("P15", "Merging committed transactions into the store changes nothing visible",
     "A checkpoint (and closing the transaction manager) folds the versions of committed transactions into the base indexes: content, counters, dictionary and all index views are those of the committed state before and after, later transactions continue from it, and it survives saving and loading.",
     ["histories"], "every history of transactions with checkpoints between them",
     "the merge has a path per index and per way a key came to be (new term, emptied list, literal, predicate), over everything committed since the last merge",
     TXF, [("merge", "Txn_manager::Checkpoint, Database::VersionClean, KVstore::*VersionClean")], TXS,
     "content, counters and dumps after each checkpoint and after reloading", TT,
     "two rounds of 30 calls with checkpoints whenever no transaction runs; each followed by full content, counters and dump; half of them reloaded")
prop("P16", "Requests made at the same time each take effect at one moment",
     "Whatever requests - queries, updates, transactions at any isolation level - several threads make of one database at the same time, there is an order of them, consistent with their calls and returns, in which each takes effect at one moment with exactly the answer it gave, and which leaves the final content, counters, dictionary and indexes. In particular nothing of a commit is seen before the rest of it by a snapshot or a query outside transactions, no update is lost, and no new term gets two ids or no string. A request outside a transaction may be refused, and a transaction aborted, only while another request runs. A read committed query, which reads each index list as committed at that moment, may see part of the commits that fall into it, but nothing that holds at no time during it, and everything that holds throughout.",
     ["schedules", "histories"], "every interleaving of the inner steps of any number of requests of any number of threads",
     "the tests run a few threads on the operating system's schedule and compare totals; what can go wrong is a window of a few instructions between two particular requests",
     ["Database/Database.cpp", "Database/Txn_manager.cpp", "KVstore/KVstore.cpp", "KVstore/IVArray/IVArray.cpp", "KVstore/IVArray/IVEntry.cpp", "StringIndex/StringIndex.cpp", "Query/GeneralEvaluation.cpp"],
     [("locks of a request", "Database::query, insertTriple, removeTriple"), ("latches of index entries", "IVEntry, GLatch"), ("cache and file locks", "IVArray::CacheLock, SITree, StringIndex::latch"), ("commit stamping", "Txn_manager::Commit, Database::TransactionCommit")],
     TXS + [("pending requests", "called but not yet returned")], "calls and returns with answers, per thread; content, counters and dumps afterwards",
     "linearizability check with TLC (ConcTrace.tla: subset construction over Txn.tla) of recorded concurrent histories",
     "450 histories of 2-4 threads; pauses at random inner function entries, and one request stopped inside at one of up to 5000 points until another thread's requests are answered; the code is instrumented by compiler flags in the check's own build only")
