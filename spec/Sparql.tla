------------------------------- MODULE Sparql -------------------------------
(***************************************************************************)
(* The answers gStore promises: the SPARQL 1.1 algebra over a set of       *)
(* triples, for the part of the language gStore supports.                  *)
(*                                                                         *)
(* Terms are positive integers, indexes of the term table T (a sequence of *)
(* records written by the harness: what the term IS, never what gStore     *)
(* says about it).  A triple is <<s,p,o>>.  A solution mapping is a        *)
(* function from a set of variable names to values; a multiset of          *)
(* solutions is a sequence whose order carries no meaning.                 *)
(*                                                                         *)
(* Queries are abstract syntax trees (records), evaluated by recursion.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

CONSTANT T          \* term table: T[i] = [ty, n, cs, tag, dt, ...]

-----------------------------------------------------------------------------
(* Values.  id > 0: the term T[id].  id = 0: computed by an expression.    *)
SC == 100           \* numbers are scaled by 100 (two decimal places)

Val(id) == [id |-> id, ty |-> "", n |-> 0, cs |-> <<>>, tag |-> ""]
Err     == [id |-> 0, ty |-> "err",  n |-> 0, cs |-> <<>>, tag |-> ""]
Bool(b) == [id |-> 0, ty |-> "bool", n |-> IF b THEN 1 ELSE 0, cs |-> <<>>, tag |-> ""]
Num(k)  == [id |-> 0, ty |-> "num",  n |-> k, cs |-> <<>>, tag |-> ""]
Str(cs) == [id |-> 0, ty |-> "str",  n |-> 0, cs |-> cs, tag |-> ""]
Iri(cs) == [id |-> 0, ty |-> "iri",  n |-> 0, cs |-> cs, tag |-> ""]

\* the value with its type spelled out
Open(v) == IF v.id = 0 THEN v
           ELSE [id |-> v.id, ty |-> T[v.id].ty, n |-> T[v.id].n, cs |-> T[v.id].cs, tag |-> T[v.id].tag]

True  == Bool(TRUE)
False == Bool(FALSE)

\* Effective boolean value: "t", "f" or "e"
EBV(v) == CASE v.ty = "bool" -> IF v.n = 1 THEN "t" ELSE "f"
            [] v.ty = "num"  -> IF v.n # 0 THEN "t" ELSE "f"
            [] v.ty \in {"str", "lang"} -> IF Len(v.cs) > 0 THEN "t" ELSE "f"
            [] OTHER -> "e"
OfEBV(x) == CASE x = "t" -> True [] x = "f" -> False [] OTHER -> Err

-----------------------------------------------------------------------------
(* Strings as sequences of character codes                                 *)
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE SeqLess(Tail(a), Tail(b))

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasSub(s, p)     == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
Up(c)   == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Low(c)  == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

\* The regular expressions used here: [^] literal characters and '.' [$], optionally case-insensitive
RECURSIVE MatchHere(_, _, _)
MatchHere(s, p, ci) ==
    IF p = <<>> THEN TRUE
    ELSE IF p = <<36>> THEN s = <<>>
    ELSE IF s = <<>> THEN FALSE
    ELSE /\ (p[1] = 46 \/ (IF ci THEN Low(s[1]) = Low(p[1]) ELSE s[1] = p[1]))
         /\ MatchHere(Tail(s), Tail(p), ci)
RegexMatch(s, p, ci) ==
    IF p # <<>> /\ p[1] = 94 THEN MatchHere(s, Tail(p), ci)
    ELSE \E i \in 0..Len(s) : MatchHere(SubSeq(s, i + 1, Len(s)), p, ci)

-----------------------------------------------------------------------------
(* Expressions.  Every operator takes and returns opened values.           *)

\* "=": "t", "f", or "e" when SPARQL leaves the comparison a type error
EqV(a, b) ==
    IF a.ty = "err" \/ b.ty = "err" THEN "e"
    ELSE IF a.ty = "num" /\ b.ty = "num" THEN (IF a.n = b.n THEN "t" ELSE "f")
    ELSE IF a.ty = "bool" /\ b.ty = "bool" THEN (IF a.n = b.n THEN "t" ELSE "f")
    ELSE IF a.ty \in {"iri", "bn"} \/ b.ty \in {"iri", "bn"} THEN (IF a.ty = b.ty /\ a.cs = b.cs THEN "t" ELSE "f")
    ELSE IF a.ty = b.ty /\ a.cs = b.cs /\ a.tag = b.tag THEN "t"
    ELSE IF a.ty = b.ty /\ a.ty \in {"str", "lang", "date", "dtime"} THEN "f"
    ELSE IF {a.ty, b.ty} = {"str", "lang"} THEN "f"
    ELSE "e"

LtV(a, b) ==
    IF a.ty = "num" /\ b.ty = "num" THEN (IF a.n < b.n THEN "t" ELSE "f")
    ELSE IF a.ty = "bool" /\ b.ty = "bool" THEN (IF a.n < b.n THEN "t" ELSE "f")
    ELSE IF a.ty = b.ty /\ a.ty \in {"str", "date", "dtime"} THEN (IF SeqLess(a.cs, b.cs) THEN "t" ELSE "f")
    ELSE "e"

NotE(x) == CASE x = "t" -> "f" [] x = "f" -> "t" [] OTHER -> "e"
OrE(x, y) == IF x = "t" \/ y = "t" THEN "t" ELSE IF x = "e" \/ y = "e" THEN "e" ELSE "f"
AndE(x, y) == IF x = "f" \/ y = "f" THEN "f" ELSE IF x = "e" \/ y = "e" THEN "e" ELSE "t"

IsLit(v) == v.ty \in {"str", "lang", "num", "bool", "date", "dtime", "other"}

RECURSIVE OrAll(_, _, _)
OrAll(a, bs, i) == IF i > Len(bs) THEN "f" ELSE OrE(EqV(a, bs[i]), OrAll(a, bs, i + 1))

DtOf(v) == IF v.id > 0 THEN T[v.id].dtcs ELSE <<>>
LexOf(v) == IF v.id > 0 THEN T[v.id].lex ELSE v.cs

\* the number written by the digits cs[i..j]
RECURSIVE Digits(_, _, _)
Digits(cs, i, j) == IF j < i THEN 0 ELSE 10 * Digits(cs, i, j - 1) + (cs[j] - 48)
\* fields of a dateTime YYYY-MM-DDThh:mm:ss
Field(f, cs) == CASE f = "year" -> Digits(cs, 1, 4) [] f = "month" -> Digits(cs, 6, 7) [] f = "day" -> Digits(cs, 9, 10)
                  [] f = "hours" -> Digits(cs, 12, 13) [] f = "minutes" -> Digits(cs, 15, 16)

IsFloat(v) == v.id > 0 /\ T[v.id].fl
Huge == 1000000000
\* a quotient; generated expressions divide exactly (to two places) or by zero
Quot(a, b) == IF b.n = 0 THEN (IF (IsFloat(a) \/ IsFloat(b)) /\ a.n # 0 THEN Num(IF a.n > 0 THEN Huge ELSE -Huge) ELSE Err)
              ELSE IF b.n < 0 THEN Num((-a.n * SC) \div (-b.n)) ELSE Num((a.n * SC) \div b.n)

StrArgs(a, b) == a.ty \in {"str", "lang"} /\ (b.ty = "str" \/ (b.ty = "lang" /\ a.ty = "lang" /\ a.tag = b.tag))
Cased(a, cs) == IF a.ty = "str" THEN Str(cs) ELSE [id |-> 0, ty |-> "lang", n |-> 0, cs |-> cs, tag |-> a.tag]

RECURSIVE Ev(_, _)
Ev(e, m) ==
    LET A == Ev(e.a[1], m)
        B == Ev(e.a[2], m)
    IN CASE e.f = "var"   -> IF e.v \in DOMAIN m THEN Open(m[e.v]) ELSE Err
         [] e.f = "const" -> Open(Val(e.id))
         [] e.f = "bound" -> Bool(e.v \in DOMAIN m)
         [] e.f = "!"     -> OfEBV(NotE(EBV(A)))
         [] e.f = "&&"    -> OfEBV(AndE(EBV(A), EBV(B)))
         [] e.f = "||"    -> OfEBV(OrE(EBV(A), EBV(B)))
         [] e.f = "="     -> OfEBV(EqV(A, B))
         [] e.f = "!="    -> OfEBV(NotE(EqV(A, B)))
         [] e.f = "<"     -> OfEBV(LtV(A, B))
         [] e.f = ">"     -> OfEBV(LtV(B, A))
         [] e.f = "<="    -> OfEBV(IF LtV(A, B) = "e" THEN "e" ELSE NotE(LtV(B, A)))
         [] e.f = ">="    -> OfEBV(IF LtV(A, B) = "e" THEN "e" ELSE NotE(LtV(A, B)))
         [] e.f = "+"     -> IF A.ty = "num" /\ B.ty = "num" THEN Num(A.n + B.n) ELSE Err
         [] e.f = "-"     -> IF A.ty = "num" /\ B.ty = "num" THEN Num(A.n - B.n) ELSE Err
         [] e.f = "*"     -> IF A.ty = "num" /\ B.ty = "num" THEN Num((A.n * B.n) \div SC) ELSE Err
         [] e.f = "/"     -> IF A.ty = "num" /\ B.ty = "num" THEN Quot(A, B) ELSE Err
         [] e.f = "neg"   -> IF A.ty = "num" THEN Num(-A.n) ELSE Err
         [] e.f \in {"year", "month", "day", "hours", "minutes"} -> IF A.ty = "dtime" THEN Num(SC * Field(e.f, A.cs)) ELSE Err
         [] e.f = "in"    -> OfEBV(OrAll(A, [i \in 1..(Len(e.a) - 1) |-> Ev(e.a[i + 1], m)], 1))
         [] e.f = "notin" -> OfEBV(NotE(OrAll(A, [i \in 1..(Len(e.a) - 1) |-> Ev(e.a[i + 1], m)], 1)))
         [] e.f = "isiri" -> IF A.ty = "err" THEN Err ELSE Bool(A.ty = "iri")
         [] e.f = "isliteral" -> IF A.ty = "err" THEN Err ELSE Bool(IsLit(A))
         [] e.f = "isnumeric" -> IF A.ty = "err" THEN Err ELSE Bool(A.ty = "num")
         [] e.f = "str"   -> IF A.ty = "err" THEN Err ELSE Str(LexOf(A))
         [] e.f = "lang"  -> IF ~IsLit(A) THEN Err ELSE Str(IF A.ty = "lang" /\ A.id > 0 THEN T[A.id].tagcs ELSE <<>>)
         [] e.f = "langmatches" -> IF A.ty # "str" \/ B.ty # "str" THEN Err
                                   ELSE IF B.cs = <<42>> THEN Bool(A.cs # <<>>)
                                   ELSE LET x == MapSeq(A.cs, Low)  y == MapSeq(B.cs, Low)
                                        IN Bool(x = y \/ StartsWith(x, y \o <<45>>))
         [] e.f = "datatype" -> IF ~IsLit(A) THEN Err ELSE Iri(DtOf(A))
         [] e.f = "contains"  -> IF StrArgs(A, B) THEN Bool(HasSub(A.cs, B.cs)) ELSE Err
         [] e.f = "strstarts" -> IF StrArgs(A, B) THEN Bool(StartsWith(A.cs, B.cs)) ELSE Err
         [] e.f = "regex"  -> IF A.ty \in {"str", "lang"} /\ B.ty = "str" THEN Bool(RegexMatch(A.cs, B.cs, e.ci)) ELSE Err
         [] e.f = "ucase"  -> IF A.ty \in {"str", "lang"} THEN Cased(A, MapSeq(A.cs, Up)) ELSE Err
         [] e.f = "lcase"  -> IF A.ty \in {"str", "lang"} THEN Cased(A, MapSeq(A.cs, Low)) ELSE Err
         [] e.f = "concat" -> IF \A i \in 1..Len(e.a) : Ev(e.a[i], m).ty = "str"
                              THEN Str(FlattenSeq([i \in 1..Len(e.a) |-> Ev(e.a[i], m).cs])) ELSE Err
         [] e.f = "abs"    -> IF A.ty = "num" THEN Num(IF A.n < 0 THEN -A.n ELSE A.n) ELSE Err
         [] e.f = "if"     -> CASE EBV(A) = "t" -> B [] EBV(A) = "f" -> Ev(e.a[3], m) [] OTHER -> Err

Holds(e, m) == EBV(Ev(e, m)) = "t"

-----------------------------------------------------------------------------
(* Graph patterns                                                          *)
Empty == [v \in {} |-> Val(1)]

Compat(m1, m2) == \A v \in DOMAIN m1 \cap DOMAIN m2 : m1[v] = m2[v]
Merge(m1, m2)  == [v \in DOMAIN m1 \cup DOMAIN m2 |-> IF v \in DOMAIN m1 THEN m1[v] ELSE m2[v]]

JoinB(A, B) == FlattenSeq([i \in 1..Len(A) |->
                  LET C == SelectSeq(B, LAMBDA m : Compat(A[i], m))
                  IN [j \in 1..Len(C) |-> Merge(A[i], C[j])]])

LeftJoinB(A, B, f(_)) == FlattenSeq([i \in 1..Len(A) |->
                  LET C == SelectSeq(B, LAMBDA m : Compat(A[i], m) /\ f(Merge(A[i], m)))
                  IN IF C = <<>> THEN <<A[i]>> ELSE [j \in 1..Len(C) |-> Merge(A[i], C[j])]])

MinusB(A, B) == SelectSeq(A, LAMBDA m : ~\E j \in 1..Len(B) :
                      Compat(m, B[j]) /\ DOMAIN m \cap DOMAIN B[j] # {})

\* position k of a triple pattern against a term under mapping m
IsVar(t) == "v" \in DOMAIN t
PosOK(t, x, m) == IF IsVar(t) THEN (t.v \in DOMAIN m => m[t.v] = Val(x)) ELSE t.id = x
Ext(t, x, m) == IF IsVar(t) /\ t.v \notin DOMAIN m THEN Merge(m, (t.v :> Val(x))) ELSE m

\* all extensions of m by the triples of G matching tp (a set: different triples give different extensions)
MatchTP(tp, G, m) ==
    LET C == {g \in G : PosOK(tp[1], g[1], m) /\ PosOK(tp[2], g[2], m) /\ PosOK(tp[3], g[3], m)}
        X(g) == LET m1 == Ext(tp[1], g[1], m)
                    ok2 == PosOK(tp[2], g[2], m1)
                    m2 == Ext(tp[2], g[2], m1)
                IN IF ok2 /\ PosOK(tp[3], g[3], m2) THEN {Ext(tp[3], g[3], m2)} ELSE {}
    IN UNION {X(g) : g \in C}

\* p*: reflexive-transitive closure over the nodes of the graph
NodesOf(G) == {g[1] : g \in G} \cup {g[3] : g \in G}
RECURSIVE Close(_, _)
Close(S, E) == LET N == S \cup {g[3] : g \in {h \in E : h[1] \in S}} IN IF N = S THEN S ELSE Close(N, E)

MatchPath(tp, G, m) ==
    LET E == {g \in G : g[2] = tp[2].id}
        N == NodesOf(G) \cup (IF IsVar(tp[1]) THEN {} ELSE {tp[1].id}) \cup (IF IsVar(tp[3]) THEN {} ELSE {tp[3].id})
        S == {x \in N : PosOK(tp[1], x, m)}
        X(x) == LET m1 == Ext(tp[1], x, m)
                IN {Ext(tp[3], y, m1) : y \in {z \in Close({x}, E) : PosOK(tp[3], z, m1)}}
    IN UNION {X(x) : x \in S}

StepTP(tp, G, A, path) ==
    FlattenSeq([i \in 1..Len(A) |-> SetToSeq(IF path THEN MatchPath(tp, G, A[i]) ELSE MatchTP(tp, G, A[i]))])

RECURSIVE EvGroup(_, _), EvElems(_, _, _, _), EvSub(_, _), EvSelectBag(_, _)

NoFilter(g) == SelectSeq(g, LAMBDA x : x.el # "filter")
FiltersOf(g) == SelectSeq(g, LAMBDA x : x.el = "filter")
AllHold(fs, m) == \A i \in 1..Len(fs) : Holds(fs[i].e, m)

\* elements in order, filters last over the whole group (SPARQL 1.1, 18.2.2)
EvElems(g, i, G, A) ==
    IF i > Len(g) THEN A
    ELSE LET x == g[i]
             R == CASE x.el = "tp"    -> StepTP(x.tp, G, A, FALSE)
                    [] x.el = "path"  -> JoinB(A, StepTP(x.tp, G, <<Empty>>, TRUE))
                    [] x.el = "group" -> JoinB(A, EvGroup(x.g, G))
                    [] x.el = "union" -> JoinB(A, FlattenSeq([k \in 1..Len(x.gs) |-> EvGroup(x.gs[k], G)]))
                    [] x.el = "opt"   -> LET fs == FiltersOf(x.g)
                                             B == EvElems(NoFilter(x.g), 1, G, <<Empty>>)
                                         IN LeftJoinB(A, B, LAMBDA m : AllHold(fs, m))
                    [] x.el = "minus" -> MinusB(A, EvGroup(x.g, G))
                    [] x.el = "bind"  -> [k \in 1..Len(A) |->
                                            LET r == Ev(x.e, A[k])
                                            IN IF r.ty = "err" THEN A[k]
                                               ELSE Merge(A[k], x.v :> (IF r.id > 0 THEN Val(r.id) ELSE r))]
                    [] x.el = "sub"   -> JoinB(A, EvSub(x.q, G))
         IN EvElems(g, i + 1, G, R)

EvGroup(g, G) == LET fs == FiltersOf(g)
                 IN SelectSeq(EvElems(NoFilter(g), 1, G, <<Empty>>), LAMBDA m : AllHold(fs, m))

-----------------------------------------------------------------------------
(* Solution modifiers                                                      *)
RestrictM(m, V) == [v \in DOMAIN m \cap V |-> m[v]]

\* aggregates over a non-empty or empty group (sequence of solutions)
DistinctVals(s) == ToSet(s)
AggVals(ag, S) == LET R == [i \in 1..Len(S) |-> Ev(ag.e, S[i])]
                  IN SelectSeq(R, LAMBDA v : v.ty # "err")
RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN 0 ELSE s[1].n + SumN(Tail(s))
DedupV(s) == SetToSeq(ToSet(s))

\* result of one aggregate: a value, or Err when unbound
Agg(ag, S) ==
    IF ag.fn = "count" /\ ag.star
    THEN Num(SC * (IF ag.distinct THEN Cardinality(ToSet(S)) ELSE Len(S)))
    ELSE LET vs0 == AggVals(ag, S)
             vs == IF ag.distinct THEN DedupV(vs0) ELSE vs0
         IN CASE ag.fn = "count" -> Num(SC * Len(vs))
              [] ag.fn = "sum"   -> IF \A i \in 1..Len(vs) : vs[i].ty = "num" THEN Num(SumN(vs)) ELSE Err
              [] ag.fn = "avg"   -> IF vs = <<>> THEN Num(0)
                                    ELSE IF \A i \in 1..Len(vs) : vs[i].ty = "num" THEN [Num(SumN(vs) \div Len(vs)) EXCEPT !.ty = "approx"] ELSE Err
              [] ag.fn = "min"   -> IF vs = <<>> THEN Err
                                    ELSE CHOOSE v \in ToSet(vs) : \A w \in ToSet(vs) : LtV(w, v) # "t"
              [] ag.fn = "max"   -> IF vs = <<>> THEN Err
                                    ELSE CHOOSE v \in ToSet(vs) : \A w \in ToSet(vs) : LtV(v, w) # "t"

\* GROUP BY keys then one row per group
Grouped(q, A) ==
    LET KV == ToSet(q.group)
        Keys == {RestrictM(A[i], KV) : i \in 1..Len(A)}
        Keys1 == IF q.group = <<>> THEN {Empty} ELSE Keys
        RowOf(k) == LET S == SelectSeq(A, LAMBDA m : RestrictM(m, KV) = k)
                        D == {i \in 1..Len(q.aggs) : Agg(q.aggs[i], S).ty # "err"}
                        vn == [i \in 1..Len(q.aggs) |-> q.aggs[i].v]
                        am == [v \in {vn[i] : i \in D} |->
                                 LET i == CHOOSE j \in D : vn[j] = v
                                     r == Agg(q.aggs[i], S)
                                 IN IF r.id > 0 THEN Val(r.id) ELSE r]
                    IN Merge(k, am)
    IN SetToSeq({RowOf(k) : k \in Keys1})

HasAgg(q) == q.aggs # <<>> \/ q.group # <<>>

\* the multiset of solutions before ORDER BY/LIMIT/OFFSET, restricted to the projection
SelBag(q, G) ==
    LET A == EvGroup(q.where, G)
        R == IF HasAgg(q) THEN Grouped(q, A) ELSE A
        X == [i \in 1..Len(R) |->    \* (expr AS ?v)
                LET D == {k \in 1..Len(q.exprs) : Ev(q.exprs[k].e, R[i]).ty # "err"}
                IN IF D = {} THEN R[i]
                   ELSE Merge(R[i], [v \in {q.exprs[k].v : k \in D} |->
                          LET k == CHOOSE j \in D : q.exprs[j].v = v
                              r == Ev(q.exprs[k].e, R[i])
                          IN IF r.id > 0 THEN Val(r.id) ELSE r])]
    IN X

Project(q, A) == IF q.star THEN A ELSE [i \in 1..Len(A) |-> RestrictM(A[i], ToSet(q.vars))]
Dedup(A) == SetToSeq(ToSet(A))

EvSelectBag(q, G) == LET P == Project(q, SelBag(q, G)) IN IF q.distinct THEN Dedup(P) ELSE P
EvSub(q, G) == EvSelectBag(q, G)

-----------------------------------------------------------------------------
(* Judging an observed answer                                              *)

\* does the observed cell (a term id of T, 0 = unbound) show value v?
CellOK(c, v) ==
    IF v.id > 0 THEN c = v.id \/ (c > 0 /\ v.id > 0 /\ T[c] = T[v.id])
    ELSE /\ c > 0
         /\ CASE v.ty = "num"  -> T[c].ty = "num" /\ T[c].n = v.n
              [] v.ty = "approx" -> T[c].ty = "num" /\ T[c].n - v.n \in -1..1      \* a quotient: up to the second decimal
              [] v.ty = "bool" -> T[c].ty = "bool" /\ T[c].n = v.n
              [] v.ty = "str"  -> T[c].ty = "str" /\ T[c].cs = v.cs
              [] v.ty = "iri"  -> T[c].ty = "iri" /\ T[c].cs = v.cs
              [] v.ty = "lang" -> T[c].ty = "lang" /\ T[c].cs = v.cs /\ T[c].tag = v.tag
              [] OTHER -> FALSE

\* row: one observed row, sequence of cells in the order of the header vars
RowShows(row, vars, m) == \A k \in 1..Len(vars) :
    IF vars[k] \in DOMAIN m THEN CellOK(row[k], m[vars[k]]) ELSE row[k] = 0

\* observed row -> canonical key of cells; expected mapping -> same key if it only binds terms
\* bag equality by counting: for every expected solution the same number of rows show it
BagEq(rows, vars, B) ==
    /\ Len(rows) = Len(B)
    /\ \A m \in ToSet(B) :
         Cardinality({i \in 1..Len(B) : B[i] = m}) = Cardinality({i \in 1..Len(rows) : RowShows(rows[i], vars, m)})

\* every row is a distinct solution of B, no more often than in B
BagSub(rows, vars, B) ==
    /\ \A i \in 1..Len(rows) : \E m \in ToSet(B) : RowShows(rows[i], vars, m)
    /\ \A m \in ToSet(B) :
         Cardinality({i \in 1..Len(rows) : RowShows(rows[i], vars, m)}) <= Cardinality({i \in 1..Len(B) : B[i] = m})

\* ORDER BY: unbound first, then by LtV where it is defined; "t" a strictly before b, "f" strictly after, "=" tie, "e" unordered
OrdCmp(a, b) ==
    IF a.ty = "err" /\ b.ty = "err" THEN "="
    ELSE IF a.ty = "err" THEN "t"
    ELSE IF b.ty = "err" THEN "f"
    ELSE IF a.ty = "iri" /\ b.ty = "iri" THEN (IF a.cs = b.cs THEN "=" ELSE IF SeqLess(a.cs, b.cs) THEN "t" ELSE "f")
    ELSE IF LtV(a, b) = "t" THEN "t" ELSE IF LtV(b, a) = "t" THEN "f"
    ELSE IF EqV(a, b) = "t" THEN "=" ELSE "e"

RECURSIVE InOrder(_, _, _, _)
\* key lists ka, kb of two rows, row a shown before row b
InOrder(ka, kb, desc, i) ==
    IF i > Len(ka) THEN TRUE
    ELSE LET c == OrdCmp(ka[i], kb[i])
         IN IF c = "e" THEN TRUE
            ELSE IF c = "=" THEN InOrder(ka, kb, desc, i + 1)
            ELSE IF desc[i] THEN c = "f" ELSE c = "t"

KeysOf(q, m) == [i \in 1..Len(q.order) |-> Ev(q.order[i].e, m)]
Descs(q) == [i \in 1..Len(q.order) |-> q.order[i].desc]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* how many rows OFFSET/LIMIT leave (limit = -1: none given)
Window(q, n) == LET r == Max2(0, n - q.offset) IN IF q.limit >= 0 THEN Min2(r, q.limit) ELSE r

\* rows sorted by visible keys: order keys are projected variables (the harness only orders by those)
SortedRows(q, rows, vars) ==
    q.order = <<>> \/
    \A i \in 1..(Len(rows) - 1) :
      LET M(r) == [v \in {vars[k] : k \in {j \in 1..Len(vars) : r[j] > 0}} |->
                     LET k == CHOOSE j \in 1..Len(vars) : vars[j] = v IN Val(r[k])]
      IN InOrder(KeysOf(q, M(rows[i])), KeysOf(q, M(rows[i + 1])), Descs(q), 1)

\* with LIMIT/OFFSET under ORDER BY: the k-th shown row must carry the keys of the (offset+k)-th solution
\* in any order compatible with the keys: no left-out solution may sort strictly before a shown one, except
\* at most `offset` of them
SelectOK(q, G, vars, rows) ==
    LET B == EvSelectBag(q, G)
    IN /\ q.star \/ ToSet(vars) = ToSet(q.vars)
       /\ Len(rows) = Window(q, Len(B))
       /\ IF q.limit < 0 /\ q.offset = 0 THEN BagEq(rows, vars, B) ELSE BagSub(rows, vars, B)
       /\ SortedRows(q, rows, vars)
       /\ (q.order # <<>> /\ rows # <<>> /\ (q.limit >= 0 \/ q.offset > 0)) =>
            LET D == Descs(q)
                Strict(ka, kb) == ~InOrder(kb, ka, D, 1)      \* a must come strictly before b
                K == [i \in 1..Len(B) |-> KeysOf(q, B[i])]
                Shown(i) == CHOOSE j \in 1..Len(B) : RowShows(rows[i], vars, B[j])
                n == Len(rows)
            IN \A i \in 1..n :
                 LET kk == K[Shown(i)]
                 IN /\ Cardinality({j \in 1..Len(B) : Strict(K[j], kk)}) < q.offset + i
                    /\ Cardinality({j \in 1..Len(B) : ~Strict(kk, K[j])}) >= q.offset + i

AskOK(q, G, ans) == ans = (EvGroup(q.where, G) # <<>>)

-----------------------------------------------------------------------------
(* Updates: the triples a request removes and adds                         *)
Inst(t, m) == IF IsVar(t) THEN (IF t.v \in DOMAIN m THEN m[t.v].id ELSE 0) ELSE t.id
\* instantiations of a template; incomplete ones and literals in subject/predicate position are skipped
InstTP(tp, A) == {x \in {<<Inst(tp[1], A[i]), Inst(tp[2], A[i]), Inst(tp[3], A[i])>> : i \in 1..Len(A)} :
                     /\ x[1] > 0 /\ x[2] > 0 /\ x[3] > 0
                     /\ T[x[1]].ty \in {"iri", "bn"} /\ T[x[2]].ty = "iri"}
InstAll(tps, A) == UNION {InstTP(tps[k], A) : k \in 1..Len(tps)}
=============================================================================
