------------------------------ MODULE TxnTrace ------------------------------
(***************************************************************************)
(* Trace validation of interleaved transactions on one database: every     *)
(* event logged from the real transaction manager must be a step of Txn.   *)
(* Events outside a transaction (dump, read all, ... after the transaction *)
(* manager was closed or a checkpoint was taken) are judged by StoreTrace. *)
(***************************************************************************)
EXTENDS StoreTrace

X == INSTANCE Txn
VARIABLE m
tvars == <<G, i, bad, m>>

TInit == Init /\ m = X!Fresh

Del(e, H) == CASE e.k = "ins" -> {} [] e.k = "del" -> TS(e.ts) [] OTHER -> S!InstAll(e.del, S!EvGroup(e.where, H))
Ins(e, H) == CASE e.k = "ins" -> TS(e.ts) [] e.k = "del" -> {} [] OTHER -> S!InstAll(e.ins, S!EvGroup(e.where, H))

Known(M, t) == t \in X!Tids(M)
Run(M, t) == Known(M, t) /\ M.tx[t].st = "run"

IsTxn(e) == e.ev \in {"tmopen", "tmclose", "begin", "tupd", "tsel", "task", "commit", "rollback", "ckpt"}

\* the prescribed successor
TNext(M, e) ==
    CASE e.ev = "reset" -> X!Fresh
      [] e.ev = "tmopen" -> [X!Fresh EXCEPT !.c = M.c]
      [] e.ev = "tmclose" -> [M EXCEPT !.tx = [t \in DOMAIN @ |-> IF @[t].st = "run" THEN [@[t] EXCEPT !.st = "ab"] ELSE @[t]]]
      [] e.ev = "begin" -> X!Begin(M, e.t, e.iso)
      [] e.ev = "tupd" ->
            IF ~Run(M, e.t) THEN M
            ELSE IF e.ret = -20 THEN X!Abort(M, e.t)
            ELSE LET v == X!View(M, e.t)  d == Del(e, v)  a == Ins(e, v)
                 IN X!Log(X!Update(M, e.t, d, a), e.t, [k |-> "upd", rd |-> e.k = "mod", e |-> e])
      [] e.ev \in {"tsel", "task"} ->
            IF ~Run(M, e.t) THEN M
            ELSE IF e.ret = -20 THEN X!Abort(M, e.t)
            ELSE X!Log(M, e.t, [k |-> "sel", rd |-> TRUE, e |-> e])
      [] e.ev = "commit"   -> IF Run(M, e.t) THEN X!Commit(M, e.t) ELSE M
      [] e.ev = "rollback" -> IF Run(M, e.t) THEN X!Abort(M, e.t) ELSE M
      [] OTHER -> [M EXCEPT !.c = Next1(e, M.c)]

\* what a call on a transaction that is not running answers
DeadRet(M, e, unknown, ended) == IF e.ret = (IF Known(M, e.t) THEN ended ELSE unknown) THEN "" ELSE "return code of a call on a transaction that is not running"

\* a behaviour drawn from Mvcc says whether the call is refused
Unexpected(M, e) == "exp" \in DOMAIN e /\ Run(M, e.t) /\ (e.ret = -20) # (e.exp = "ab")

TWhy(M, e) ==
    CASE e.ev \in {"tupd", "tsel"} /\ Unexpected(M, e) -> "refused or accepted against Mvcc"
      [] e.ev = "begin" -> IF Known(M, e.t) THEN "transaction id used twice" ELSE ""
      [] e.ev = "tupd" ->
            IF ~Run(M, e.t) THEN DeadRet(M, e, -1, -99)
            ELSE LET v == X!View(M, e.t)  d == Del(e, v)  a == Ins(e, v)  f == X!Effect(M, e.t, d, a)
                 IN IF e.ret = -20 THEN IF X!MayAbortUpdate(M, e.t, d \cup a) \/ (e.k = "mod" /\ X!MayAbortRead(M, e.t)) THEN "" ELSE "aborted without a conflict"
                    ELSE IF ~X!MayUpdate(M, e.t, d \cup a) THEN "conflicting update was accepted"
                    ELSE IF e.ret = f.n THEN "" ELSE "count of an update in a transaction"
      [] e.ev \in {"tsel", "task"} ->
            IF ~Run(M, e.t) THEN DeadRet(M, e, -1, -99)
            ELSE IF e.ret = -20 THEN IF X!MayAbortRead(M, e.t) THEN "" ELSE "read aborted without a conflict"
            ELSE IF e.ret # -100 THEN "read refused"
            ELSE IF e.ev = "task" THEN IF S!AskOK(e.q, X!View(M, e.t), e.ans) THEN "" ELSE "answer in a transaction"
            ELSE IF S!SelectOK(e.q, X!View(M, e.t), e.vars, e.rows) THEN "" ELSE "answer in a transaction of level " \o ToString(M.tx[e.t].iso)
      [] e.ev = "commit" -> IF Run(M, e.t) THEN IF e.ret = 0 THEN "" ELSE "commit refused" ELSE DeadRet(M, e, -1, 1)
      [] e.ev = "rollback" -> IF Run(M, e.t) THEN IF e.ret = 0 THEN "" ELSE "rollback refused" ELSE DeadRet(M, e, -1, 1)
      [] OTHER -> ""

-----------------------------------------------------------------------------
(* serializability of the committed serializable transactions: some serial *)
(* order reproduces everything they saw and the final committed graph      *)
No == [ok |-> FALSE, g |-> {}]
RECURSIVE Replay(_, _, _), Orders(_)
\* run ops k.. on H: the resulting graph, or No when an observation differs
Replay(ops, k, H) ==
    IF k > Len(ops) THEN [ok |-> TRUE, g |-> H]
    ELSE LET e == ops[k].e
         IN IF ops[k].k = "upd"
            THEN LET d == Del(e, H)  a == Ins(e, H)  n == Cardinality(d \cap H) + Cardinality(a \ (H \ d))
                 IN IF n # e.ret THEN No ELSE Replay(ops, k + 1, (H \ d) \cup a)
            ELSE IF (IF e.ev = "task" THEN S!AskOK(e.q, H, e.ans) ELSE S!SelectOK(e.q, H, e.vars, e.rows)) THEN Replay(ops, k + 1, H) ELSE No
Orders(T) == IF T = {} THEN {<<>>} ELSE UNION {{<<t>> \o o : o \in Orders(T \ {t})} : t \in T}
RECURSIVE Serial(_, _, _)
Serial(o, k, H) == IF k > Len(o) THEN [ok |-> TRUE, g |-> H]
                   ELSE LET r == Replay(m.tx[o[k]].ops, 1, H) IN IF r.ok THEN Serial(o, k + 1, r.g) ELSE No
Committed == {t \in X!Tids(m) : m.tx[t].st = "com"}
Serializable(G0) == \E o \in Orders(Committed) : LET r == Serial(o, 1, G0) IN r.ok /\ r.g = m.c

\* "serial" closes a scenario of serializable transactions only; e.ts is the graph they started from
SWhy(e) == IF Serializable(TS(e.ts)) THEN "" ELSE "not serializable"

TStep == /\ i <= Len(Log)
         /\ i' = i + 1
         /\ m' = TNext(m, E)
         /\ G' = IF IsTxn(E) THEN m'.c ELSE Next1(E, G)
         /\ LET w == IF E.ev = "serial" THEN SWhy(E) ELSE IF IsTxn(E) THEN TWhy(m, E) ELSE Why(E, G)
            IN IF w = "" THEN bad' = bad
               ELSE /\ PrintT(<<"REJECT", i, w>>)
                    /\ bad' = Append(bad, i)

TSpec == TInit /\ [][TStep]_tvars
=============================================================================
