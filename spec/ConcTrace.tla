------------------------------ MODULE ConcTrace ------------------------------
(***************************************************************************)
(* Requests of several threads on one database.  The log holds the call    *)
(* and the return of every request in the order they really happened; a    *)
(* request between the two is pending.  The specification lets every       *)
(* pending request take effect at one moment of its own choosing between   *)
(* its call and its return, as a step of TxnTrace, and asks that the       *)
(* answers actually given are the answers of such a step.                  *)
(*                                                                         *)
(* The state is the set of all machine states the log so far allows (the   *)
(* subset construction), so validation is deterministic: a log is refused  *)
(* at the first return after which no machine state is left.               *)
(*                                                                         *)
(* A read committed query reads the index lists one by one, each as it is  *)
(* committed at that moment, and a commit stamps its index entries one by  *)
(* one: when a commit falls into the query, its answer need not be that of *)
(* one moment, but lies between what holds throughout (lo) and what holds  *)
(* at some time (hi) from the call of the commit to its return.            *)
(***************************************************************************)
EXTENDS TxnTrace

VARIABLES K,      \* the possible configurations [m |-> Txn machine, done |-> ids of pending requests that took effect,
                  \*   rc |-> pending read committed queries: id -> [t, lo, hi],
                  \*   half |-> pending commits that took effect: id -> [add, rem], what they changed]
          Pend    \* pending requests: id -> [e |-> the request with its answer, ov |-> whether another one overlapped it]
cvars == <<G, i, bad, m, K, Pend>>

CInit == TInit /\ K = {[m |-> X!Fresh, done |-> {}, rc |-> <<>>, half |-> <<>>]} /\ Pend = <<>>

\* one request takes effect in M: "" when the answer given is right.
\* A request outside any transaction may be refused (-101) and a transaction aborted (-20) while another request is pending.
Refused(e) == "ret" \in DOMAIN e /\ e.ret = -101
CWhy(M, e, ov) ==
    IF Refused(e) /\ ~IsTxn(e) THEN IF ov THEN "" ELSE "refused although no other request was pending"
    ELSE IF e.ev \in {"tupd", "tsel", "task"} /\ Run(M, e.t) /\ e.ret = -20 /\ ov THEN ""
    ELSE IF IsTxn(e) THEN TWhy(M, e) ELSE Why(e, M.c)
\* what an ended transaction leaves behind that later steps still look at
Tidy(M) ==
    LET Live == X!Running(M)
    IN [M EXCEPT !.tx = [t \in DOMAIN @ |->
          LET r == @[t]
              seen == \E u \in Live : t \in @[u].con          \* it may still be a rival of a running transaction
          IN IF r.st = "run" THEN (IF r.iso = 3 THEN [r EXCEPT !.snap = {}] ELSE r)
             ELSE [r EXCEPT !.snap = {}, !.ins = {}, !.del = {}, !.con = {},
                            !.tch = IF seen THEN @ ELSE {}, !.keys = IF seen THEN @ ELSE {},
                            !.ops = IF r.iso = 1 /\ r.st = "com" THEN @ ELSE <<>>]]]
CNext(M, e) == IF Refused(e) /\ ~IsTxn(e) THEN M ELSE Tidy(TNext(M, e))

\* what the pending read committed queries may have seen, once the machine is M
Widen(rc, M) == [j \in DOMAIN rc |-> LET v == X!View(M, rc[j].t) IN [rc[j] EXCEPT !.lo = @ \cap v, !.hi = @ \cup v]]
\* what it may see at its call
RcFrom(c, t) == LET v == X!View(c.m, t)
                    Add == UNION {c.half[j].add : j \in DOMAIN c.half}
                    Rem == UNION {c.half[j].rem : j \in DOMAIN c.half}
                IN [t |-> t, lo |-> v \ (Add \ c.m.tx[t].ins), hi |-> v \cup (Rem \ c.m.tx[t].del)]
OnlyTriples(g) == \A k \in 1..Len(g) : g[k].el = "tp"
Plain1(q) == OnlyTriples(q.where) /\ q.group = <<>> /\ q.aggs = <<>> /\ q.exprs = <<>> /\ q.limit < 0 /\ q.offset = 0
Between(e, lo, hi) ==
    \/ ~OnlyTriples(e.q.where)
    \/ IF e.ev = "task" THEN (e.ans => S!EvGroup(e.q.where, hi) # <<>>) /\ (S!EvGroup(e.q.where, lo) # <<>> => e.ans)
       ELSE Plain1(e.q) => LET L == S!EvSelectBag(e.q, lo)  Hi == ToSet(S!EvSelectBag(e.q, hi))
                           IN /\ \A k \in 1..Len(e.rows) : \E x \in Hi : S!RowShows(e.rows[k], e.vars, x)
                              /\ \A j \in 1..Len(L) : \E k \in 1..Len(e.rows) : S!RowShows(e.rows[k], e.vars, L[j])
RcOK(c, id) == LET e == Pend[id].e IN /\ id \in DOMAIN c.rc /\ e.ret = -100 /\ c.rc[id].lo # c.rc[id].hi
                                      /\ Between(e, c.rc[id].lo, c.rc[id].hi)

Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Apply(c, id) == LET p == Pend[id]  n == CNext(c.m, p.e)
                IN IF CWhy(c.m, p.e, p.ov) = "" \/ RcOK(c, id)
                   THEN {[m |-> n, done |-> c.done \cup {id}, rc |-> Widen(Drop(c.rc, id), n),
                          half |-> IF p.e.ev = "commit" THEN X!Ext(c.half, id, [add |-> n.c \ c.m.c, rem |-> c.m.c \ n.c]) ELSE c.half]} ELSE {}

\* the configurations in which id is the last request to have taken effect (others may follow it later)
RECURSIVE Until(_, _)
Until(C, id) ==
    LET Done == {c \in C : id \in c.done}
        Open == C \ Done
        Now  == UNION {Apply(c, id) : c \in Open}
        More == UNION {UNION {Apply(c, j) : j \in DOMAIN Pend \ (c.done \cup {id})} : c \in Open}
    IN Done \cup Now \cup (IF More = {} THEN {} ELSE Until(More, id))

\* events outside a concurrent part act on every configuration
Plain(e) == {c \in K : CWhy(c.m, e, FALSE) = ""}
Spread(e, C) == {[c EXCEPT !.m = CNext(c.m, e)] : c \in C}
IsRc(c, e) == e.ev \in {"tsel", "task"} /\ Run(c.m, e.t) /\ c.m.tx[e.t].iso = 3

CommittedIn(M) == {t \in X!Tids(M) : M.tx[t].st = "com"}
RECURSIVE SerialIn(_, _, _, _)
SerialIn(M, o, k, H) == IF k > Len(o) THEN [ok |-> TRUE, g |-> H]
                        ELSE LET r == Replay(M.tx[o[k]].ops, 1, H) IN IF r.ok THEN SerialIn(M, o, k + 1, r.g) ELSE No
SerialOK(M, G0) == \E o \in Orders(CommittedIn(M)) : LET r == SerialIn(M, o, 1, G0) IN r.ok /\ r.g = M.c

Reject(w) == PrintT(<<"REJECT", i, w>>) /\ bad' = Append(bad, i)

CStep ==
    /\ i <= Len(Log)
    /\ i' = i + 1
    /\ UNCHANGED <<G, m>>
    /\ CASE E.ev = "reset" -> K' = {[m |-> X!Fresh, done |-> {}, rc |-> <<>>, half |-> <<>>]} /\ Pend' = <<>> /\ bad' = bad
         [] K = {} -> K' = K /\ Pend' = Pend /\ bad' = bad       \* already refused: the rest of this scenario has no meaning
         [] E.ev = "call" ->
              /\ LET ov == DOMAIN Pend # {}
                 IN Pend' = X!Ext([j \in DOMAIN Pend |-> [Pend[j] EXCEPT !.ov = TRUE]], E.id, [e |-> E.e, ov |-> ov])
              /\ K' = {IF IsRc(c, E.e) THEN [c EXCEPT !.rc = X!Ext(@, E.id, RcFrom(c, E.e.t))] ELSE c : c \in K}
              /\ bad' = bad
         [] E.ev = "ret" ->
              /\ K' = {[c EXCEPT !.done = @ \ {E.id}, !.half = Drop(@, E.id)] : c \in Until(K, E.id)}
              /\ Pend' = Drop(Pend, E.id)
              /\ IF K' # {} THEN bad' = bad
                 ELSE LET e == Pend[E.id].e  c == CHOOSE c \in K : TRUE
                      IN Reject("no order of the pending requests explains the answer: " \o CWhy(c.m, e, Pend[E.id].ov))
         [] E.ev = "serial" ->
              /\ K' = {c \in K : SerialOK(c.m, TS(E.ts))} /\ Pend' = Pend
              /\ IF K' # {} THEN bad' = bad ELSE Reject("not serializable")
         [] OTHER ->
              /\ K' = Spread(E, Plain(E)) /\ Pend' = Pend
              /\ IF K' # {} THEN bad' = bad
                 ELSE LET c == CHOOSE c \in K : TRUE IN Reject(CWhy(c.m, E, FALSE))

CSpec == CInit /\ [][CStep]_cvars
=============================================================================
