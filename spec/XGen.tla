-------------------------------- MODULE XGen --------------------------------
(* The IDL text of a tree of modules.  A command gives the tree: e.mods (name n, outer module o; the first one is the   *)
(* root) and e.decls (module m, kind k, name n, type t, and the value v of a constant), where the type of something     *)
(* declared is [k |-> "ref", m, n, kind].  The text is a sequence of words.  It is read here as the IDL grammar says,   *)
(* its names are looked up as the scoping rules of IDL say, among what is declared before, and it has to declare each   *)
(* declaration of the tree once, in its module, with its shape.                                                        *)
EXTENDS XBytes, FiniteSets

-----------------------------------------------------------------------------
(* Reading.  A reader takes the words and a position and answers [i, x]: the position after what was read, 0 if it     *)
(* isn't there, and what was read.                                                                                     *)
Got(i, x) == [i |-> i, x |-> x]
No == [i |-> 0, x |-> <<>>]
End == [k |-> "end", s |-> "", v |-> <<>>, w |-> 0]
At(W, i) == IF i \in 1..Len(W) THEN W[i] ELSE End
IsP(W, i, s) == At(W, i).k = "p" /\ At(W, i).s = s
IsW(W, i, s) == At(W, i).k = "w" /\ At(W, i).s = s
Reserved == {"struct", "union", "switch", "case", "default", "enum", "typedef", "const", "module", "sequence", "map", "string",
             "wstring", "boolean", "char", "wchar", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64",
             "float", "double", "long", "TRUE", "FALSE"}
IsId(W, i) == At(W, i).k = "w" /\ At(W, i).s \notin Reserved
Basic == {"boolean", "char", "wchar", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double"}
Number(t) == SmallVal(SubSeq(t.v, 1, 3), FALSE)
IsNumber(W, i) == At(W, i).k = "n" /\ (\A j \in 4..16 : At(W, i).v[j] = 0)

RECURSIVE RestOfName(_, _, _)
RestOfName(W, i, parts) ==
    IF IsP(W, i, "::") THEN (IF IsId(W, i + 1) THEN RestOfName(W, i + 2, Append(parts, W[i + 1].s)) ELSE No)
    ELSE Got(i, parts)
ReadName(W, i) ==
    LET ab == IsP(W, i, "::")
        j == IF ab THEN i + 1 ELSE i
        r == IF IsId(W, j) THEN RestOfName(W, j + 1, <<W[j].s>>) ELSE No
    IN  IF r.i = 0 THEN No ELSE Got(r.i, [k |-> "name", ab |-> ab, q |-> r.x])

\* ", bound >" or ">"
ReadBound(W, i) ==
    IF IsP(W, i, ">") THEN Got(i + 1, 0)
    ELSE IF IsP(W, i, ",") /\ IsNumber(W, i + 1) /\ IsP(W, i + 2, ">") THEN Got(i + 3, Number(W[i + 1]))
    ELSE No
RECURSIVE ReadType(_, _)
ReadType(W, i) ==
    IF At(W, i).k = "w" /\ At(W, i).s \in Basic THEN Got(i + 1, [k |-> W[i].s])
    ELSE IF IsW(W, i, "long") /\ IsW(W, i + 1, "double") THEN Got(i + 2, [k |-> "long double"])
    ELSE IF IsW(W, i, "string") \/ IsW(W, i, "wstring") THEN
        IF ~IsP(W, i + 1, "<") THEN Got(i + 1, [k |-> W[i].s, b |-> 0])
        ELSE IF IsNumber(W, i + 2) /\ IsP(W, i + 3, ">") THEN Got(i + 4, [k |-> W[i].s, b |-> Number(W[i + 2])]) ELSE No
    ELSE IF IsW(W, i, "sequence") /\ IsP(W, i + 1, "<") THEN
        LET t == ReadType(W, i + 2)
            b == IF t.i = 0 THEN No ELSE ReadBound(W, t.i)
        IN  IF b.i = 0 THEN No ELSE Got(b.i, [k |-> "sequence", e |-> t.x, b |-> b.x])
    ELSE IF IsW(W, i, "map") /\ IsP(W, i + 1, "<") THEN
        LET a == ReadType(W, i + 2)
            c == IF a.i = 0 \/ ~IsP(W, a.i, ",") THEN No ELSE ReadType(W, a.i + 1)
            b == IF c.i = 0 THEN No ELSE ReadBound(W, c.i)
        IN  IF b.i = 0 THEN No ELSE Got(b.i, [k |-> "map", a |-> a.x, c |-> c.x, b |-> b.x])
    ELSE ReadName(W, i)

RECURSIVE ReadDims(_, _, _)
ReadDims(W, i, ds) ==
    IF IsP(W, i, "[") THEN
        (IF IsNumber(W, i + 1) /\ IsP(W, i + 2, "]") THEN ReadDims(W, i + 3, Append(ds, Number(W[i + 1]))) ELSE No)
    ELSE Got(i, ds)
\* type identifier [n]... ;
ReadDeclarator(W, i) ==
    LET t == ReadType(W, i)
        d == IF t.i = 0 \/ ~IsId(W, t.i) THEN No ELSE ReadDims(W, t.i + 1, <<>>)
    IN  IF d.i = 0 \/ ~IsP(W, d.i, ";") THEN No ELSE Got(d.i + 1, [n |-> W[t.i].s, t |-> t.x, ds |-> d.x])
RECURSIVE ReadMembers(_, _, _)
ReadMembers(W, i, ms) ==
    IF IsP(W, i, "}") THEN Got(i + 1, ms)
    ELSE LET d == ReadDeclarator(W, i) IN IF d.i = 0 THEN No ELSE ReadMembers(W, d.i, Append(ms, d.x))
\* A literal, or the name of an enumerator
ReadValue(W, i) ==
    IF At(W, i).k \in {"n", "f", "c", "s"} \/ IsW(W, i, "TRUE") \/ IsW(W, i, "FALSE") THEN Got(i + 1, W[i]) ELSE ReadName(W, i)
RECURSIVE ReadLabels(_, _, _, _)
ReadLabels(W, i, ls, df) ==
    IF IsW(W, i, "default") /\ IsP(W, i + 1, ":") THEN ReadLabels(W, i + 2, ls, df + 1)
    ELSE IF IsW(W, i, "case") THEN
        LET v == ReadValue(W, i + 1)
        IN  IF v.i > 0 /\ IsP(W, v.i, ":") THEN ReadLabels(W, v.i + 1, Append(ls, v.x), df) ELSE No
    ELSE Got(i, [ls |-> ls, df |-> df])
RECURSIVE ReadCases(_, _, _)
ReadCases(W, i, cs) ==
    IF IsP(W, i, "}") THEN Got(i + 1, cs)
    ELSE LET l == ReadLabels(W, i, <<>>, 0)
             d == IF l.i = 0 THEN No ELSE ReadDeclarator(W, l.i)
         IN  IF d.i = 0 THEN No ELSE ReadCases(W, d.i, Append(cs, [ls |-> l.x.ls, df |-> l.x.df, m |-> d.x]))
RECURSIVE ReadEnumerators(_, _, _)
ReadEnumerators(W, i, es) ==
    IF ~IsId(W, i) THEN No
    ELSE IF IsP(W, i + 1, ",") THEN ReadEnumerators(W, i + 2, Append(es, W[i].s))
    ELSE IF IsP(W, i + 1, "}") THEN Got(i + 2, Append(es, W[i].s)) ELSE No

Closed(W, r, x) == IF r.i = 0 \/ ~IsP(W, r.i, ";") THEN No ELSE Got(r.i + 1, x)
\* One statement; of a module, only its beginning, and its end is a statement too.
ReadStatement(W, i) ==
    IF IsW(W, i, "module") THEN
        IF IsId(W, i + 1) /\ IsP(W, i + 2, "{") THEN Got(i + 3, [k |-> "open", n |-> W[i + 1].s]) ELSE No
    ELSE IF IsP(W, i, "}") THEN (IF IsP(W, i + 1, ";") THEN Got(i + 2, [k |-> "close", n |-> ""]) ELSE No)
    ELSE IF IsW(W, i, "struct") /\ IsId(W, i + 1) THEN
        LET p == IF IsP(W, i + 2, ":") THEN ReadName(W, i + 3) ELSE Got(i + 2, <<>>)
            ms == IF p.i = 0 \/ ~IsP(W, p.i, "{") THEN No ELSE ReadMembers(W, p.i + 1, <<>>)
        IN  Closed(W, ms, [k |-> "struct", n |-> W[i + 1].s, p |-> IF IsP(W, i + 2, ":") THEN <<p.x>> ELSE <<>>, ms |-> ms.x])
    ELSE IF IsW(W, i, "union") /\ IsId(W, i + 1) /\ IsW(W, i + 2, "switch") /\ IsP(W, i + 3, "(") THEN
        LET d == ReadType(W, i + 4)
            cs == IF d.i = 0 \/ ~IsP(W, d.i, ")") \/ ~IsP(W, d.i + 1, "{") THEN No ELSE ReadCases(W, d.i + 2, <<>>)
        IN  Closed(W, cs, [k |-> "union", n |-> W[i + 1].s, d |-> d.x, cs |-> cs.x])
    ELSE IF IsW(W, i, "enum") /\ IsId(W, i + 1) /\ IsP(W, i + 2, "{") THEN
        LET es == ReadEnumerators(W, i + 3, <<>>) IN Closed(W, es, [k |-> "enum", n |-> W[i + 1].s, es |-> es.x])
    ELSE IF IsW(W, i, "typedef") THEN
        LET d == ReadDeclarator(W, i + 1)
        IN  IF d.i = 0 THEN No ELSE Got(d.i, [k |-> "alias", n |-> d.x.n, m |-> d.x])
    ELSE IF IsW(W, i, "const") THEN
        LET t == ReadType(W, i + 1) IN
        IF t.i = 0 \/ ~IsId(W, t.i) \/ ~IsP(W, t.i + 1, "=") THEN No
        ELSE LET v == ReadValue(W, t.i + 2)
             IN  IF v.i = 0 THEN No ELSE Closed(W, v, [k |-> "const", n |-> W[t.i].s, t |-> t.x, v |-> v.x])
    ELSE No

-----------------------------------------------------------------------------
(* Names.  Seen is the sequence of what is declared so far: [s, n, d], its scope (a sequence of names), its name and    *)
(* which declaration of the tree it is: 0 for a module, -d for the enumerators of the enumeration d.                   *)
DeclaredIn(Seen, s, n) == { j \in 1..Len(Seen) : Seen[j].s = s /\ Seen[j].n = n }
RECURSIVE Inside(_, _, _)
\* what parts denote in the scope s: the declarations, none if there aren't
Inside(Seen, s, parts) ==
    IF Len(parts) = 1 THEN { Seen[j].d : j \in DeclaredIn(Seen, s, parts[1]) } \ {0}
    ELSE IF \E j \in DeclaredIn(Seen, s, parts[1]) : Seen[j].d = 0 THEN Inside(Seen, Append(s, parts[1]), Tail(parts))
    ELSE {}
RECURSIVE Outward(_, _, _)
Outward(Seen, s, parts) ==
    IF DeclaredIn(Seen, s, parts[1]) # {} THEN Inside(Seen, s, parts)
    ELSE IF s = <<>> THEN {} ELSE Outward(Seen, Front(s), parts)
Denoted(Seen, s, name) == IF name.ab THEN Inside(Seen, <<>>, name.q) ELSE Outward(Seen, s, name.q)

RECURSIVE PathOf(_, _)
PathOf(e, m) == IF e.mods[m].o = 0 THEN <<>> ELSE Append(PathOf(e, e.mods[m].o), e.mods[m].n)

-----------------------------------------------------------------------------
(* Shapes                                                                                                              *)
PrimName == [bool |-> "boolean", char |-> "char", c16 |-> "wchar", wc |-> "wchar", i8 |-> "int8", u8 |-> "uint8", i16 |-> "int16",
             u16 |-> "uint16", i32 |-> "int32", u32 |-> "uint32", i64 |-> "int64", u64 |-> "uint64", f32 |-> "float",
             f64 |-> "double", f128 |-> "long double"]
StrName == [str |-> "string", wstr |-> "wstring", u16str |-> "wstring"]
RECURSIVE SameType(_, _, _, _, _)
\* Is x, read in the scope s, the type t of the tree?
SameType(e, Seen, s, t, x) ==
    CASE t.k \in DOMAIN PrimName -> x.k = PrimName[t.k]
      [] t.k \in DOMAIN StrName -> x.k = StrName[t.k] /\ x.b = t.b
      [] t.k = "seq" -> x.k = "sequence" /\ x.b = t.b /\ SameType(e, Seen, s, t.e, x.e)
      [] t.k = "map" -> x.k = "map" /\ x.b = t.b /\ SameType(e, Seen, s, t.e.a, x.a) /\ SameType(e, Seen, s, t.e.c, x.c)
      [] t.k = "ref" ->
            /\ x.k = "name"
            /\ LET ds == Denoted(Seen, s, x) IN
               /\ Cardinality(ds) = 1
               /\ \A d \in ds : d > 0 /\ e.decls[d].m = t.m /\ e.decls[d].n = t.n /\ e.decls[d].k = t.kind
RECURSIVE Dims(_), Base(_)
Dims(t) == IF t.k = "array" THEN <<t.b>> \o Dims(t.e) ELSE <<>>
Base(t) == IF t.k = "array" THEN Base(t.e) ELSE t
SameDeclarator(e, Seen, s, n, t, d) == d.n = n /\ d.ds = Dims(t) /\ SameType(e, Seen, s, Base(t), d.t)

RECURSIVE Final(_, _)
Final(e, t) ==
    IF t.k # "ref" THEN t
    ELSE LET d == CHOOSE i \in 1..Len(e.decls) : e.decls[i].m = t.m /\ e.decls[i].n = t.n /\ e.decls[i].k = t.kind
         IN  Final(e, e.decls[d].t)
\* A constant has the type its alias stands for
RECURSIVE Plain(_, _)
Plain(e, t) ==
    IF t.k # "ref" \/ t.kind # "alias" THEN t
    ELSE LET d == CHOOSE i \in 1..Len(e.decls) : e.decls[i].m = t.m /\ e.decls[i].n = t.n /\ e.decls[i].k = t.kind
         IN  Plain(e, e.decls[d].t)
SignedKinds == {"i8", "i16", "i32", "i64"}
\* Is w, read in the scope s, the value v (bytes, quarters, or characters) of the type t?  Labels can tell an enumerator
\* by its name alone.
SameValue(e, Seen, s, t, v, w, label) ==
    LET f == Final(e, t) IN
    CASE f.k = "bool" -> w.k = "w" /\ w.s = (IF v = <<0>> THEN "FALSE" ELSE "TRUE")
      [] f.k = "char" -> w.k = "c" /\ w.w = 0 /\ w.v = v
      [] f.k \in {"c16", "wc"} -> w.k = "c" /\ w.w = 1 /\ Len(w.v) = 1 /\ ToBytes(w.v[1], Len(v)) = v
      [] f.k = "str" -> w.k = "s" /\ w.w = 0 /\ w.v = v
      [] f.k \in {"wstr", "u16str"} -> w.k = "s" /\ w.w = 1 /\ w.v = v
      [] f.k \in {"f32", "f64", "f128"} -> (w.k = "f" /\ w.v = v) \/ (w.k = "n" /\ v[1] % 4 = 0 /\ IsSmall(w.v, TRUE) /\ SmallVal(w.v, TRUE) = v[1] \div 4)
      [] f.k = "enum" -> 
            /\ w.k = "name"
            /\ \E i \in 1..Len(f.es) : f.es[i].n = Last(w.q) /\ f.es[i].v = v
            /\ \/ label /\ ~w.ab /\ Len(w.q) = 1
               \/ LET ds == Denoted(Seen, s, w) IN
                  /\ Cardinality(ds) = 1
                  /\ \A d \in ds : d < 0 /\ e.decls[-d].t = f
      [] OTHER -> w.k = "n" /\ w.v = Resize(v, f.k \in SignedKinds, 16)

SameEnum(t, x) ==
    /\ Len(x.es) = Len(t.es)
    /\ \A i \in 1..Len(t.es) : x.es[i] = t.es[i].n

Matches(e, Seen, s, d, x) ==
    CASE d.k = "struct" ->
            /\ Len(x.ms) = Len(d.t.ms)
            /\ \A i \in 1..Len(x.ms) : SameDeclarator(e, Seen, s, d.t.ms[i].n, d.t.ms[i].t, x.ms[i])
            /\ Len(x.p) = Len(d.t.p)
            /\ \A i \in 1..Len(x.p) : SameType(e, Seen, s, d.t.p[i], x.p[i])
      [] d.k = "union" ->
            /\ SameType(e, Seen, s, d.t.d, x.d)
            /\ Len(x.cs) = Len(d.t.cs)
            /\ \A i \in 1..Len(x.cs) :
                LET c == d.t.cs[i] IN
                /\ SameDeclarator(e, Seen, s, c.n, c.t, x.cs[i].m)
                /\ x.cs[i].df = (IF c.df THEN 1 ELSE 0)
                /\ Len(x.cs[i].ls) = Len(c.ls)
                /\ \A j \in 1..Len(c.ls) : \E w \in 1..Len(c.ls) : SameValue(e, Seen, s, d.t.d, c.ls[j], x.cs[i].ls[w], TRUE)
      [] d.k = "enum" -> SameEnum(d.t, x)
      [] d.k = "alias" -> SameDeclarator(e, Seen, s, d.n, d.t, x.m)
      [] d.k = "const" -> SameType(e, Seen, s, Plain(e, d.t), x.t) /\ SameValue(e, Seen, s, d.t, d.v, x.v, FALSE)

\* The declaration of the tree that a statement in the scope s makes, 0 if it makes none.
Which(e, s, x) ==
    LET ds == { i \in 1..Len(e.decls) : e.decls[i].k = x.k /\ e.decls[i].n = x.n /\ PathOf(e, e.decls[i].m) = s
                                        /\ ~(x.k = "const" /\ e.decls[i].fe = 1) }
    IN  IF ds = {} THEN 0 ELSE CHOOSE i \in ds : TRUE
Due(e) == { i \in 1..Len(e.decls) : ~(e.decls[i].k = "const" /\ e.decls[i].fe = 1) }

\* Reads the text from the position i, in the scope s, with what is declared so far: "" or what is wrong, and where.
RECURSIVE Walk(_, _, _, _, _)
Walk(e, W, i, s, Seen) ==
    IF i > Len(W) THEN
        IF s # <<>> THEN <<"a module isn't closed", i>>
        ELSE LET left == Due(e) \ { Seen[j].d : j \in 1..Len(Seen) }
             IN  IF left = {} THEN <<>> ELSE <<"not declared", { e.decls[j].n : j \in left }>>
    ELSE LET r == ReadStatement(W, i) IN
    IF r.i = 0 THEN <<"unreadable", i, At(W, i).s, At(W, i + 1).s>>
    ELSE CASE r.x.k = "open" ->
            LET s1 == Append(s, r.x.n) IN
            IF ~\E m \in 2..Len(e.mods) : PathOf(e, m) = s1 THEN <<"no such module", s1>>
            ELSE Walk(e, W, r.i, s1, IF \E j \in DeclaredIn(Seen, s, r.x.n) : Seen[j].d = 0 THEN Seen
                                     ELSE Append(Seen, [s |-> s, n |-> r.x.n, d |-> 0]))
      [] r.x.k = "close" -> IF s = <<>> THEN <<"closes nothing", i>> ELSE Walk(e, W, r.i, Front(s), Seen)
      [] OTHER ->
            LET d == Which(e, s, r.x) IN
            IF d = 0 THEN <<"declares what isn't there", s, r.x.k, r.x.n>>
            ELSE IF \E j \in 1..Len(Seen) : Seen[j].d = d THEN <<"declared again", s, r.x.n>>
            ELSE IF ~Matches(e, Seen, s, e.decls[d], r.x) THEN <<"is other", s, r.x.k, r.x.n>>
            ELSE Walk(e, W, r.i, s, Append(Seen, [s |-> s, n |-> r.x.n, d |-> d])
                                    \o (IF r.x.k = "enum" THEN [z \in 1..Len(r.x.es) |-> [s |-> s, n |-> r.x.es[z], d |-> -d]] ELSE <<>>))

Wrong(e) ==
    IF ~e.ok THEN <<"refused">>
    ELSE IF ~e.same THEN <<"asked again, the text is other">>
    ELSE Walk(e, e.w, 1, <<>>, <<>>)
=============================================================================
