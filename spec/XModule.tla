------------------------------- MODULE XModule -------------------------------
(* A tree of modules with the types, aliases and constants declared in each, and every query and declaration of the    *)
(* interface.  Exec(S, e) is the set of outcomes of the command e in the state S.  S is a sequence of modules in the   *)
(* order of their creation; the first one is the root.  Commands give a name both as text (e.n) and as its parts       *)
(* (e.q: first 1 if the name is absolute, 0 if not, then the components).                                             *)
EXTENDS XTypeBuild

CONSTANT Idents                         \* the identifiers of the history, in alphabetical order

EmptyFn == <<>>
Module(name, outer) ==
    [name |-> name, outer |-> outer, subs |-> EmptyFn, structs |-> EmptyFn, unions |-> EmptyFn, aliases |-> EmptyFn,
     enums |-> EmptyFn, consts |-> EmptyFn, fe |-> {}]
Tree0 == <<Module("", 0)>>
Kinds == {"structs", "unions", "aliases", "enums", "consts", "subs"}

With(f, n, x) == (n :> x) @@ f
Without(f, n) == [y \in DOMAIN f \ {n} |-> f[y]]
RECURSIVE ScopeOf(_, _)
ScopeOf(S, i) ==
    IF S[i].outer = 0 THEN ""
    ELSE LET o == ScopeOf(S, S[i].outer) IN IF o = "" THEN S[i].name ELSE o \o "::" \o S[i].name
Scoped(S, i, n) == LET s == ScopeOf(S, i) IN IF s = "" THEN n ELSE s \o "::" \o n
Has(S, i, n) == \E k \in Kinds : n \in DOMAIN S[i][k]

-----------------------------------------------------------------------------
(* Resolution: the module where a name is looked up, 0 if there is none, innermost first.                             *)
RECURSIVE Down(_, _, _), Up(_, _, _)
\* the module of parts[1]::...::parts[n], strictly inside the module i; the last part must be declared there
Down(S, i, parts) ==
    IF Len(parts) = 1 THEN (IF Has(S, i, parts[1]) THEN i ELSE 0)
    ELSE IF parts[1] \in DOMAIN S[i].subs THEN Down(S, S[i].subs[parts[1]], Tail(parts)) ELSE 0
Up(S, i, parts) ==
    IF i = 0 THEN 0
    ELSE IF Len(parts) = 1 THEN (IF Has(S, i, parts[1]) THEN i ELSE Up(S, S[i].outer, parts))
    ELSE IF parts[1] \in DOMAIN S[i].subs THEN Down(S, i, parts) ELSE Up(S, S[i].outer, parts)
Resolve(S, i, q) == IF q[1] = 1 THEN Down(S, 1, Tail(q)) ELSE Up(S, i, Tail(q))
Last1(q) == q[Len(q)]
Malformed(q) == q[1] = 1 \/ Len(q) # 2

\* <<declaration>> of a kind that the name denotes, or <<>>
Find(S, i, q, kind) ==
    LET m == Resolve(S, i, q) IN
    IF m = 0 \/ Last1(q) \notin DOMAIN S[m][kind] THEN <<>> ELSE <<S[m][kind][Last1(q)]>>
RECURSIVE SymbolCount(_, _, _)
SymbolCount(S, i, n) == IF i = 0 THEN 0 ELSE Flag(Has(S, i, n)) + SymbolCount(S, S[i].outer, n)

-----------------------------------------------------------------------------
KindOf(T) == CASE T.k = "struct" -> "structs" [] T.k = "union" -> "unions" [] T.k = "enum" -> "enums" [] T.k = "alias" -> "aliases"
\* Declares T with the name n in the module i: <<state, done?>>
Declare(S, i, q, T, replace) ==
    LET n == Last1(q)
        kind == KindOf(T)
    IN  IF Malformed(q) \/ (~replace /\ n \in DOMAIN S[i][kind]) THEN <<S, FALSE>>
        ELSE <<[S EXCEPT ![i][kind] = With(@, n, [T EXCEPT !.n = Scoped(S, i, n)])], TRUE>>

RECURSIVE Preorder(_, _), Concat(_)
Concat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Concat(Tail(xs))
Children(S, i) ==
    LET names == SelectSeq(Idents, LAMBDA n : n \in DOMAIN S[i].subs) IN TLCEval([j \in 1..Len(names) |-> S[i].subs[names[j]]])
Preorder(S, i) == LET c == Children(S, i) IN <<i>> \o Concat(TLCEval([j \in 1..Len(c) |-> Preorder(S, c[j])]))

\* Every type, under its name (with its scope if asked for); of several with one name, the first one found
RECURSIVE Collect(_, _, _)
Collect(S, mods, scoped) ==
    IF mods = <<>> THEN EmptyFn
    ELSE LET i == Head(mods)
             key(n) == IF scoped THEN Scoped(S, i, n) ELSE n
             keyed(f) == TLCEval([x \in { key(n) : n \in DOMAIN f } |-> f[CHOOSE n \in DOMAIN f : key(n) = x]])
         IN  keyed(S[i].structs) @@ keyed(S[i].unions) @@ keyed(S[i].aliases) @@ keyed(S[i].enums)
             @@ Collect(S, Tail(mods), scoped)

Describe(f) == IF f = <<>> THEN "refused" ELSE Desc(f[1])
TypeNamed(S, i, q) ==
    LET all == Find(S, i, q, "aliases") \o Find(S, i, q, "unions") \o Find(S, i, q, "structs") \o Find(S, i, q, "enums")
    IN  IF all = <<>> THEN <<>> ELSE <<all[1]>>
NamedDesc(t, e) == IF t = <<>> THEN "none" ELSE Desc(IF e.q[1] = 1 THEN [t[1] EXCEPT !.n = e.n] ELSE t[1])
ConstDesc(c) == <<Desc(c.t), c.v>>
ExecAsk(S, e) ==
    LET i == e.m
        f(k) == Find(S, i, e.q, k)
        b(k) == Flag(f(k) # <<>>)
        t == TypeNamed(S, i, e.q)
    IN  << b("structs"), b("unions"), b("aliases"), b("enums"), b("consts"),
           Flag(Has(S, i, e.n)), Flag(SymbolCount(S, i, e.n) > 0), SymbolCount(S, i, e.n), Flag(e.n \in DOMAIN S[i].subs),
           Describe(f("structs")), Describe(f("structs")), Describe(f("unions")), Describe(f("unions")),
           Describe(f("aliases")), Describe(f("aliases")), Describe(f("enums")), Describe(f("enums")),
           IF f("consts") = <<>> THEN ConstDesc([t |-> [k |-> "bool"], v |-> <<0>>]) ELSE ConstDesc(f("consts")[1]),
           NamedDesc(t, e),
           Flag(e.n \in S[i].fe) >>
\* A query that looks inside of the nested modules too: which of several declarations it gives is open.
AskNested(S, e) ==
    LET own == TypeNamed(S, e.m, e.q)
        nested == { t \in { TypeNamed(S, j, e.q) : j \in Range(Preorder(S, e.m)) } : t # <<>> }
    IN  IF own # <<>> \/ nested = {} THEN {NamedDesc(own, e)} ELSE { NamedDesc(t, e) : t \in nested }

RECURSIVE Fill(_, _)
\* The value of a new data of type T after giving it v
Fill(T, v) ==
    LET t == U(T) IN
    CASE t.k \in Strs -> IF t.b > 0 /\ Len(v) > t.b THEN SubSeq(v, 1, t.b) ELSE v
      [] OTHER -> v

MExec(S, e) ==
    CASE e.op = "sub" ->
            IF e.n \in DOMAIN S[e.m].subs
            THEN LET j == S[e.m].subs[e.n] IN Gives(S, <<j, ScopeOf(S, j), e.n>>)
            ELSE LET j == Len(S) + 1
                     S1 == Append([S EXCEPT ![e.m].subs = With(@, e.n, j)], Module(e.n, e.m))
                 IN  Gives(S1, <<j, ScopeOf(S1, j), e.n>>)
      [] e.op \in {"type", "later"} ->
            LET T == Types[e.t]
                d == Declare(S, e.m, e.q, T, e.op = "type" /\ e.rep = 1 /\ T.k # "alias" /\ (e.mv = 1 \/ T.k = "enum"))
                given == IF d[2] THEN Scoped(S, e.m, e.n) ELSE e.n          \* the declared type takes its full name
            IN  Gives(d[1], IF e.op = "later" \/ e.mv = 1 \/ T.k = "enum" THEN <<Flag(d[2])>> ELSE <<Flag(d[2]), given>>)
      [] e.op = "alias" ->
            LET d == Declare(S, e.m, e.q, [k |-> "alias", n |-> e.n, e |-> Types[e.t]], FALSE) IN Gives(d[1], <<Flag(d[2])>>)
      [] e.op = "const" ->
            IF Malformed(e.q) \/ (e.rep = 0 /\ e.n \in DOMAIN S[e.m].consts) THEN Gives(S, <<0>>)
            ELSE Gives([S EXCEPT ![e.m].consts = With(@, e.n, [t |-> U(Types[e.t]), v |-> Fill(Types[e.t], e.v)]),
                                 ![e.m].fe = IF e.en = 1 THEN @ \cup {e.n} ELSE @ \ {e.n}], <<1>>)
      [] e.op = "grow" ->
            LET m == Resolve(S, e.m, e.q)
                n == Last1(e.q)
            IN  IF m = 0 \/ n \notin DOMAIN S[m].structs THEN Refused(S)
                ELSE IF e.mn \in { x.n : x \in Range(Ms(S[m].structs[n])) } THEN Refused(S)
                ELSE Done([S EXCEPT ![m].structs[n].ms = Append(@, [n |-> e.mn, t |-> Types[e.t]])])
      [] e.op = "ask" -> UNION { Gives(S, Append(ExecAsk(S, e), d)) : d \in AskNested(S, e) }
      [] e.op = "get" ->
            IF e.n \in DOMAIN S[e.m].subs
            THEN LET s == ScopeOf(S, S[e.m].subs[e.n]) IN Gives(S, <<s, s, s, 1>>)
            ELSE Gives(S, <<"none", "refused", "refused", 0>>)
      [] e.op = "all" -> Gives(S, Collect(S, Preorder(S, e.m), e.scoped = 1))
      [] e.op = "each" ->
            LET p == Preorder(S, e.m)
                scopes(x) == TLCEval([j \in 1..Len(x) |-> ScopeOf(S, x[j])])
            IN  Gives(S, << scopes(p), scopes(Tail(p)), scopes(Children(S, e.m)),
                            TLCEval([j \in 1..(Len(p) - 1) |-> S[p[j + 1]].name]) >>)

\* What is observed after every command
ModuleDesc(S, i) ==
    << S[i].name, ScopeOf(S, i), Cardinality(DOMAIN S[i].subs),
       TLCEval([j \in 1..Len(Idents) |->
            LET has(k) == Flag(Idents[j] \in DOMAIN S[i][k])
            IN  <<has("structs"), has("unions"), has("aliases"), has("enums"), has("consts")>>]) >>
=============================================================================
