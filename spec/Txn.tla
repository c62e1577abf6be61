-------------------------------- MODULE Txn --------------------------------
(***************************************************************************)
(* The transaction manager of one gStore database (Txn_manager, Database:: *)
(* TransactionCommit/Rollback and the multi-version index entries) as pure *)
(* operators over one state record                                         *)
(*     m.c   the committed graph (a set of triples)                        *)
(*     m.tx  the transactions begun so far, tid -> record                  *)
(* A transaction record carries                                            *)
(*     iso   1 serializable, 2 snapshot, 3 read committed                  *)
(*     st    "run" | "com" | "ab"                                          *)
(*     snap  the committed graph when it began                             *)
(*     ins, del  its net effect;  tch  triples it inserted or deleted;     *)
(*     keys  the index keys (position, term) its updates locked            *)
(*     con   the transactions whose life overlaps its own                  *)
(*     ops   what it asked and saw, in order (for serializability)         *)
(* Txn judges logs of the real code (TxnTrace); Mvcc models the mechanism  *)
(* behind it and is checked exhaustively within bounds.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Fresh == [c |-> {}, tx |-> <<>>]       \* tx: a function, grown with @@

Tids(m) == DOMAIN m.tx
Running(m) == {t \in Tids(m) : m.tx[t].st = "run"}

View(m, t) == LET x == m.tx[t] IN ((IF x.iso = 3 THEN m.c ELSE x.snap) \ x.del) \cup x.ins

KeysOf(T) == UNION {{<<"s", g[1]>>, <<"p", g[2]>>, <<"o", g[3]>>} : g \in T}

Rec(iso, G, con) == [iso |-> IF iso \in 1..3 THEN iso ELSE 2, st |-> "run", snap |-> G, ins |-> {}, del |-> {}, tch |-> {}, keys |-> {}, con |-> con, ops |-> <<>>]

Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* begin: the new transaction overlaps every running one
Begin(m, t, iso) ==
    [m EXCEPT !.tx = Ext([u \in DOMAIN @ |-> IF @[u].st = "run" THEN [@[u] EXCEPT !.con = @ \cup {t}] ELSE @[u]],
                         t, Rec(iso, m.c, Running(m)))]

\* the net effect of deleting D and then inserting I, as t sees it
Effect(m, t, D, I) == LET v == View(m, t)
                          d == (D \cap v)
                          a == I \ (v \ d)
                      IN [d |-> d, a |-> a, n |-> Cardinality(d) + Cardinality(a), tch |-> d \cup a]

Update(m, t, D, I) ==
    LET f == Effect(m, t, D, I)
    IN [m EXCEPT !.tx[t].ins = (@ \ f.d) \cup f.a,
                 !.tx[t].del = (@ \cup f.d) \ f.a,
                 !.tx[t].tch = @ \cup f.tch,
                 !.tx[t].keys = @ \cup KeysOf(D \cup I)]

\* transactions t must not overtake: still running, or committed during t's life
Rivals(m, t) == {u \in m.tx[t].con : m.tx[u].st # "ab"}

\* an update may succeed only if nobody else's uncommitted change to the same triple exists and,
\* above read committed, nobody committed one since t began (first updater wins)
MayUpdate(m, t, W) ==
    \A u \in Rivals(m, t) :
        (m.tx[u].st = "run" \/ m.tx[t].iso # 3) => (m.tx[u].tch \cap W) = {}

\* an update may be refused (the transaction is aborted) only if a rival used one of the keys; a serializable
\* transaction also collides with what serializable rivals have read
MayAbortUpdate(m, t, W) ==
    \E u \in Rivals(m, t) :
        \/ (m.tx[u].keys \cap KeysOf(W)) # {}
        \/ m.tx[t].iso = 1 /\ m.tx[u].iso = 1 /\ \E k \in 1..Len(m.tx[u].ops) : m.tx[u].ops[k].rd
\* a read is refused only to a serializable transaction with a rival that wrote
MayAbortRead(m, t) == m.tx[t].iso = 1 /\ \E u \in Rivals(m, t) : m.tx[u].keys # {}

Log(m, t, op) == [m EXCEPT !.tx[t].ops = Append(@, op)]
Abort(m, t)  == [m EXCEPT !.tx[t].st = "ab"]
Commit(m, t) == [m EXCEPT !.tx[t].st = "com", !.c = (@ \ m.tx[t].del) \cup m.tx[t].ins]
=============================================================================
