----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Trace validation of one gStore database used sequentially: every event  *)
(* the harness logged from the real code must be a step of the abstract    *)
(* store, whose state is a set of triples.  Query events are judged by the *)
(* SPARQL algebra, dump events by index and dictionary coherence.          *)
(*                                                                         *)
(* An event the specification does not allow is printed as REJECT and      *)
(* recorded; validation goes on from the state the specification           *)
(* prescribes, so one run reports every rejected event of the log.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Log   == ndJsonDeserialize(IOEnv.TRACE)
Terms == ndJsonDeserialize(IOEnv.TERMS)

S == INSTANCE Sparql WITH T <- Terms

VARIABLES G, i, bad
vars == <<G, i, bad>>

Init == G = {} /\ i = 1 /\ bad = <<>>

ToSet(s) == {s[k] : k \in 1..Len(s)}
E == Log[i]

Subjects(H)   == {g[1] : g \in H}
Predicates(H) == {g[2] : g \in H}
Objects(H)    == {g[3] : g \in H}
IsEnt(x)      == Terms[x].ty \in {"iri", "bn"}
Entities(H)   == Subjects(H) \cup {o \in Objects(H) : IsEnt(o)}
Literals(H)   == {o \in Objects(H) : ~IsEnt(o)}

-----------------------------------------------------------------------------
(* dump events: dictionary and index views                                 *)
\* e.ents, e.lits, e.preds: sequences of <<id, term, id looked up by string>>; the ids in views and degrees are
\* given as the terms these sequences name for them (0: an id they do not name)
DictOK(L, Need) ==
    /\ \A k \in 1..Len(L) : L[k][3] = L[k][1]                                    \* string -> id inverts id -> string
    /\ Cardinality({L[k][1] : k \in 1..Len(L)}) = Len(L)                         \* bijection
    /\ Cardinality({L[k][2] : k \in 1..Len(L)}) = Len(L)
    /\ {L[k][2] : k \in 1..Len(L)} = Need                                        \* exactly the live terms

Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
Pairs(s) == [k \in 1..(Len(s) \div 2) |-> <<s[2 * k - 1], s[2 * k]>>]

\* a list with duplicates allowed must carry each x as often as there are triples behind it; without, once
ListOK(l, nd, D, f(_)) ==
    /\ ToSet(l) = {f(g) : g \in D}
    /\ IF nd THEN Len(l) = Cardinality({f(g) : g \in D}) ELSE Len(l) = Cardinality(D)
    /\ ~nd => \A x \in ToSet(l) : Count(l, x) = Cardinality({g \in D : f(g) = x})

ViewOK(v, I) ==      \* I: the stored triples
    LET k1 == v.k1  k2 == v.k2  l == v.l  nd == v.nd
        Q1(n) == {g \in I : g[n] = k1}
    IN CASE v.v = "s2po" -> ListOK(Pairs(l), TRUE, Q1(1), LAMBDA g : <<g[2], g[3]>>) /\ Len(l) % 2 = 0
         [] v.v = "s2p"  -> ToSet(l) = {g[2] : g \in Q1(1)} /\ (nd => Len(l) = Cardinality(ToSet(l)))
         [] v.v = "s2o"  -> ListOK(l, nd, Q1(1), LAMBDA g : g[3])
         [] v.v = "sp2o" -> ListOK(l, TRUE, {g \in I : g[1] = k1 /\ g[2] = k2}, LAMBDA g : g[3])
         [] v.v = "o2ps" -> ListOK(Pairs(l), TRUE, Q1(3), LAMBDA g : <<g[2], g[1]>>) /\ Len(l) % 2 = 0
         [] v.v = "o2p"  -> ToSet(l) = {g[2] : g \in Q1(3)} /\ (nd => Len(l) = Cardinality(ToSet(l)))
         [] v.v = "o2s"  -> ListOK(l, nd, Q1(3), LAMBDA g : g[1])
         [] v.v = "op2s" -> ListOK(l, TRUE, {g \in I : g[3] = k1 /\ g[2] = k2}, LAMBDA g : g[1])
         [] v.v = "p2so" -> ListOK(Pairs(l), TRUE, Q1(2), LAMBDA g : <<g[1], g[3]>>) /\ Len(l) % 2 = 0
         [] v.v = "p2s"  -> ListOK(l, nd, Q1(2), LAMBDA g : g[1])
         [] v.v = "p2o"  -> ListOK(l, nd, Q1(2), LAMBDA g : g[3])
         [] v.v = "so2p" -> ListOK(l, TRUE, {g \in I : g[1] = k1 /\ g[3] = k2}, LAMBDA g : g[2])

DegOK(d, I) ==
    LET k1 == d[2]  k2 == d[3]  n == d[4]
    IN CASE d[1] = "deg"  -> n = Cardinality({g \in I : g[1] = k1}) + Cardinality({g \in I : g[3] = k1})
         [] d[1] = "in"   -> n = Cardinality({g \in I : g[3] = k1})
         [] d[1] = "out"  -> n = Cardinality({g \in I : g[1] = k1})
         [] d[1] = "ldeg" -> n = Cardinality({g \in I : g[3] = k1})
         [] d[1] = "pdeg" -> n = Cardinality({g \in I : g[2] = k1})
         [] d[1] = "sp"   -> n = Cardinality({g \in I : g[1] = k1 /\ g[2] = k2})
         [] d[1] = "op"   -> n = Cardinality({g \in I : g[3] = k1 /\ g[2] = k2})

DumpWhy(e, H) ==
    LET oks == DictOK(e.ents, Entities(H))
        okl == DictOK(e.lits, Literals(H))
        okp == DictOK(e.preds, Predicates(H))
    IN IF ~oks THEN "entity dictionary" ELSE IF ~okl THEN "literal dictionary" ELSE IF ~okp THEN "predicate dictionary"
       ELSE LET Bv == {k \in 1..Len(e.views) : ~ViewOK(e.views[k], H)}
                Bd == {k \in 1..Len(e.degs) : ~DegOK(e.degs[k], H)}
            IN IF Bv # {} THEN "view " \o ToString(e.views[CHOOSE k \in Bv : \A j \in Bv : k <= j])
               ELSE IF Bd # {} THEN "degree " \o ToString(e.degs[CHOOSE k \in Bd : \A j \in Bd : k <= j])
               ELSE ""

-----------------------------------------------------------------------------
(* the abstract effect of an event and whether what was observed agrees    *)
TS(s) == {<<s[k][1], s[k][2], s[k][3]>> : k \in 1..Len(s)}

ModDel(e, H) == S!InstAll(e.del, S!EvGroup(e.where, H))
ModIns(e, H) == S!InstAll(e.ins, S!EvGroup(e.where, H))

Next1(e, H) == CASE e.ev = "build"  -> TS(e.ts)
              [] e.ev = "insert" -> H \cup TS(e.ts)
              [] e.ev = "delete" -> H \ TS(e.ts)
              [] e.ev = "insfile" -> H \cup TS(e.ts)
              [] e.ev = "delfile" -> H \ TS(e.ts)
              [] e.ev = "modify" -> (H \ ModDel(e, H)) \cup ModIns(e, H)
              [] e.ev = "reset"  -> {}       \* a new scenario starts
              [] OTHER -> H

Why(e, H) ==     \* "" when the observation agrees
    CASE e.ev = "build"  -> IF e.ok THEN "" ELSE "build refused a valid file"
      [] e.ev = "insert" -> IF e.ret = Cardinality(TS(e.ts) \ H) THEN "" ELSE "insert count"
      [] e.ev = "delete" -> IF e.ret = Cardinality(TS(e.ts) \cap H) THEN "" ELSE "delete count"
      [] e.ev = "modify" -> LET d == ModDel(e, H) \cap H
                                a == ModIns(e, H) \ (H \ ModDel(e, H))
                            IN IF e.ret = Cardinality(d) + Cardinality(a) THEN "" ELSE "update count"
      [] e.ev = "select" -> IF S!SelectOK(e.q, H, e.vars, e.rows) THEN "" ELSE "answer"
      [] e.ev = "ask"    -> IF S!AskOK(e.q, H, e.ans) THEN "" ELSE "answer"
      [] e.ev = "info"   -> IF e.triples # Cardinality(H) THEN "triple count"
                            ELSE IF e.entities # Cardinality(Entities(H)) THEN "entity count"
                            ELSE IF e.literals # Cardinality(Literals(H)) THEN "literal count"
                            ELSE IF e.predicates # Cardinality(Predicates(H)) THEN "predicate count"
                            ELSE IF e.subjects # Cardinality(Subjects(H)) THEN "subject count" ELSE ""
      [] e.ev = "all"    -> IF TS(e.ts) = H /\ Len(e.ts) = Cardinality(H) THEN ""
                            ELSE "content: missing " \o ToString(H \ TS(e.ts)) \o " extra " \o ToString(TS(e.ts) \ H)
                                 \o " rows " \o ToString(Len(e.ts))
      [] e.ev = "dump"   -> DumpWhy(e, H)
      [] e.ev = "reject" -> ""     \* a request that must be refused without effect: seen by later events
      [] e.ev = "fail"   -> "failed: " \o e.msg
      [] OTHER -> ""

Step == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ G' = Next1(E, G)
        /\ LET w == Why(E, G)
           IN IF w = "" THEN bad' = bad
              ELSE /\ PrintT(<<"REJECT", i, w>>)
                   /\ bad' = Append(bad, i)

Spec == Init /\ [][Step]_vars
Accepted == /\ TLCGet("stats").diameter = Len(Log) + 1
            /\ PrintT(<<"VALIDATED", Len(Log)>>)
=============================================================================
