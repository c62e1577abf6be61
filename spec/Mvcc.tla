-------------------------------- MODULE Mvcc --------------------------------
(***************************************************************************)
(* The multi-version index entries of gStore as they work: IVEntry         *)
(* (version list, GLatch), Transaction (read and write sets), Txn_manager  *)
(* (TID and commit id from one counter). One index key guards one triple   *)
(* <<k,k,k>>; a write toggles it. Every step also advances the abstract    *)
(* state `m` of Txn and is checked to be allowed by it: what the locks     *)
(* accept, refuse and read is what Txn prescribes. With OldRead = TRUE a   *)
(* serializable transaction may read an old version without a latch (the   *)
(* defect this specification found: write skew).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, NTx, NOps, Levels, OldRead

X == INSTANCE Txn
Inf == 1000

VARIABLES cnt,    \* Txn_manager::cnt, the next TID
          tx,     \* tid -> [iso, st, rset, wset, n]
          ver,    \* key -> sequence of [b, e, v]: IVEntry::vList, v = triple present
          latch,  \* key -> [x, n]: GLatch
          m,      \* abstract state
          seen,   \* reads of the committed: set of <<t, k, version writer>>
          wrote,  \* key -> sequence of writers in commit order (0 = initial)
          ok      \* "" or what went wrong
vars == <<cnt, tx, ver, latch, m, seen, wrote, ok>>

G0 == {<<k, k, k>> : k \in Keys}
Init == /\ cnt = 1 /\ tx = <<>> /\ ok = ""
        /\ ver = [k \in Keys |-> <<[b |-> 0, e |-> Inf, v |-> TRUE, by |-> 0]>>]
        /\ latch = [k \in Keys |-> [x |-> 0, n |-> 0]]
        /\ m = [X!Fresh EXCEPT !.c = G0]
        /\ seen = {} /\ wrote = [k \in Keys |-> <<0>>]

Run(t) == t \in DOMAIN tx /\ tx[t].st = "run"
Top(k) == ver[k][Len(ver[k])]
OwnHead(t, k) == Top(k).b = Inf /\ Top(k).e = t
Locked(t, k) == Top(k).b = Inf /\ Top(k).e # t

\* the version a transaction reads
RECURSIVE Last(_, _, _)
Last(k, i, bound) == IF ver[k][i].b <= bound /\ ver[k][i].b # Inf THEN ver[k][i] ELSE Last(k, i - 1, bound)
Reads(t, k) == IF OwnHead(t, k) THEN Top(k)
               ELSE Last(k, Len(ver[k]), IF tx[t].iso = 3 THEN Inf - 1 ELSE t)

Begin(iso) ==
    /\ cnt <= NTx
    /\ tx' = X!Ext(tx, cnt, [iso |-> iso, st |-> "run", rset |-> {}, wset |-> {}, n |-> 0])
    /\ m' = X!Begin(m, cnt, iso)
    /\ cnt' = cnt + 1
    /\ UNCHANGED <<ver, latch, seen, wrote, ok>>

Judge(c, w) == ok' = IF ok = "" /\ ~c THEN w ELSE ok

\* release what t holds; committed: its versions become visible with commit id cnt
Release(t, commit) ==
    /\ ver' = [k \in Keys |->
                 IF k \in tx[t].wset
                 THEN LET s == ver[k]  l == Len(s)
                      IN IF commit THEN [s EXCEPT ![l].b = cnt, ![l].e = Inf, ![l - 1].e = cnt] ELSE SubSeq(s, 1, l - 1)
                 ELSE ver[k]]
    /\ latch' = [k \in Keys |->
                 IF tx[t].iso # 1 THEN latch[k]
                 ELSE IF k \in tx[t].wset THEN [x |-> 0, n |-> 0]
                 ELSE IF k \in tx[t].rset THEN [latch[k] EXCEPT !.n = @ - 1] ELSE latch[k]]
    /\ tx' = [tx EXCEPT ![t].st = IF commit THEN "com" ELSE "ab"]
    /\ wrote' = [k \in Keys |-> IF commit /\ k \in tx[t].wset THEN Append(wrote[k], t) ELSE wrote[k]]
    /\ m' = IF commit THEN X!Commit(m, t) ELSE X!Abort(m, t)
    /\ UNCHANGED <<cnt, seen>>

Read(t, k) ==
    /\ Run(t) /\ tx[t].n < NOps
    /\ LET first == k \notin tx[t].rset /\ k \notin tx[t].wset
           stale == ~OwnHead(t, k) /\ (Top(k).b = Inf \/ t < Top(k).b)
           refuse == tx[t].iso = 1 /\ (IF OldRead THEN Locked(t, k) /\ t > Top(k).e ELSE stale \/ (first /\ latch[k].x # 0))
       IN IF refuse
          THEN /\ Judge(X!MayAbortRead(m, t), "read refused without a rival")
               /\ Release(t, FALSE)
          ELSE /\ LET take == tx[t].iso = 1 /\ first /\ ~stale
                  IN /\ latch' = IF take THEN [latch EXCEPT ![k].n = @ + 1] ELSE latch
                     /\ tx' = [tx EXCEPT ![t].n = @ + 1, ![t].rset = IF take THEN @ \cup {k} ELSE @]
               /\ seen' = seen \cup {<<t, k, Reads(t, k).by>>}
               /\ m' = X!Log(m, t, [rd |-> TRUE])
               /\ Judge(Reads(t, k).v = (<<k, k, k>> \in X!View(m, t)), "wrong version read")
               /\ UNCHANGED <<cnt, ver, wrote>>

Write(t, k) ==
    /\ Run(t) /\ tx[t].n < NOps
    /\ LET own == k \in tx[t].wset
           tr == <<k, k, k>>
           there == tr \in X!View(m, t)
           D == IF there THEN {tr} ELSE {}
           I == IF there THEN {} ELSE {tr}
           refuse == ~own /\ \/ Locked(t, k)
                             \/ tx[t].iso # 3 /\ t < Top(k).b
                             \/ tx[t].iso = 1 /\ (latch[k].x # 0 \/ latch[k].n # IF k \in tx[t].rset THEN 1 ELSE 0)
       IN IF refuse
          THEN /\ Judge(X!MayAbortUpdate(m, t, {tr}), "update refused without a conflict")
               /\ Release(t, FALSE)
          ELSE /\ ver' = IF own THEN [ver EXCEPT ![k][Len(ver[k])].v = ~there]
                         ELSE [ver EXCEPT ![k] = Append(@, [b |-> Inf, e |-> t, v |-> ~there, by |-> t])]
               /\ latch' = IF tx[t].iso = 1 /\ ~own THEN [latch EXCEPT ![k] = [x |-> t, n |-> 1]] ELSE latch
               /\ tx' = [tx EXCEPT ![t].n = @ + 1, ![t].wset = @ \cup {k}]
               /\ m' = X!Log(X!Update(m, t, D, I), t, [rd |-> FALSE])
               /\ seen' = IF own THEN seen ELSE seen \cup {<<t, k, Reads(t, k).by>>}
               /\ Judge(X!MayUpdate(m, t, {tr}), "conflicting update accepted")
               /\ UNCHANGED <<cnt, wrote>>

Commit(t)   == Run(t) /\ Release(t, TRUE) /\ UNCHANGED ok
Rollback(t) == Run(t) /\ Release(t, FALSE) /\ UNCHANGED ok

Next == \/ \E iso \in Levels : Begin(iso)
        \/ \E t \in 1..NTx : Commit(t) \/ Rollback(t) \/ \E k \in Keys : Read(t, k) \/ Write(t, k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Agrees == ok = ""                                  \* every step is one Txn allows
\* the store equals the abstract committed graph; the uncommitted versions are those of running transactions
Stored == {k \in Keys : Last(k, Len(ver[k]), Inf - 1).v}
Content == m.c = {<<k, k, k>> : k \in Stored}
Heads == \A k \in Keys : Top(k).b = Inf => Run(Top(k).e) /\ k \in tx[Top(k).e].wset
\* versions cover time without gaps
Chain == \A k \in Keys : \A i \in 1..(Len(ver[k]) - 1) :
            ver[k][i + 1].b # Inf => ver[k][i].e = ver[k][i + 1].b /\ ver[k][i].b <= ver[k][i].e
\* latches are held by running transactions only, shared ones as often as they were taken
Latches == \A k \in Keys :
             /\ latch[k].x # 0 => Run(latch[k].x) /\ k \in tx[latch[k].x].wset
             /\ latch[k].n = IF latch[k].x # 0 THEN 1
                             ELSE Cardinality({t \in DOMAIN tx : tx[t].st = "run" /\ tx[t].iso = 1 /\ k \in tx[t].rset})
\* a transaction reads committed versions or its own
Clean == \A r \in seen : r[3] \in {0, r[1]} \/ tx[r[3]].st = "com"
\* no lost update: overlapping committed transactions above read committed never wrote one key
NoLost == \A t, u \in DOMAIN tx :
            (t # u /\ tx[t].st = "com" /\ tx[u].st = "com" /\ tx[t].iso # 3 /\ u \in m.tx[t].con /\ u < t)
              => (tx[t].wset \cap tx[u].wset) = {} \/ tx[u].iso = 3

\* conflict graph of the committed serializable transactions
Com == {t \in DOMAIN tx : tx[t].st = "com"}
Pos(k, t) == CHOOSE i \in 1..Len(wrote[k]) : wrote[k][i] = t
Edge(t, u) == t # u /\ \E k \in Keys :
    \/ k \in tx[t].wset /\ k \in tx[u].wset /\ Pos(k, t) < Pos(k, u)
    \/ k \in tx[t].wset /\ \E r \in seen : r[1] = u /\ r[2] = k /\ r[3] # u /\ Pos(k, t) <= Pos(k, r[3])
    \/ k \in tx[u].wset /\ \E r \in seen : r[1] = t /\ r[2] = k /\ r[3] # t /\ Pos(k, r[3]) < Pos(k, u)
RECURSIVE Cyclic(_)
Cyclic(T) == T # {} /\ LET src == {t \in T : \A u \in T : ~Edge(u, t)}
                       IN IF src = {} THEN TRUE ELSE Cyclic(T \ src)
SR == (\A t \in DOMAIN tx : tx[t].iso = 1) => ~Cyclic(Com)
=============================================================================
