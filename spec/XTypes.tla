------------------------------- MODULE XTypes -------------------------------
(* The types of xtypes and what they mean for values: defaults, equality, compatibility, conversion, traversal,      *)
(* printing.  Types are records (see driver/common.hpp for the same notation read by the driver):                    *)
(*   [k |-> "i32"]  and the other primitives                                                                         *)
(*   [k |-> "str" | "wstr" | "u16str", b |-> bound, 0 if none]                                                       *)
(*   [k |-> "enum", n |-> name, w |-> width in bytes, es |-> << [n |-> name, v |-> bytes], ... >>]                   *)
(*   [k |-> "alias", n |-> name, e |-> type]                                                                         *)
(*   [k |-> "array" | "seq", b |-> size or bound, e |-> type]    [k |-> "map", b |-> bound, e |-> pair type]         *)
(*   [k |-> "pair", a |-> type, c |-> type]                                                                          *)
(*   [k |-> "struct", n |-> name, p |-> <<>> or <<parent>>, ms |-> << [n |-> name, t |-> type], ... >>]              *)
(*   [k |-> "union", n |-> name, d |-> type, cs |-> << [n, t, ls |-> labels as bytes, df |-> default?], ... >>]      *)
(* Values are nested sequences: integers and enumerations are their bytes, strings their code units, structures,     *)
(* arrays and sequences their parts in order, pairs <<first, second>>, maps their entries in some order, and a union *)
(* <<discriminator, 0>> if no case is selected or <<discriminator, case number, value>>.                             *)
EXTENDS XBytes, FiniteSets

Width == [bool |-> 1, char |-> 1, c16 |-> 2, wc |-> 4, i8 |-> 1, u8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4,
          u32 |-> 4, i64 |-> 8, u64 |-> 8, f32 |-> 4, f64 |-> 8, f128 |-> 16]
Prims == DOMAIN Width
Floats == {"f32", "f64", "f128"}
SignedInts == {"i8", "i16", "i32", "i64"}
UnsignedInts == {"u8", "u16", "u32", "u64"}
Ints == SignedInts \cup UnsignedInts
Chars == {"char", "c16", "wc"}
IsSigned(k) == k \in SignedInts \cup {"char", "wc"}        \* how the bytes of a kind are read
FlagUnsigned(k) == k \in UnsignedInts                      \* what is_compatible() calls unsigned
Strs == {"str", "wstr", "u16str"}
CharOf == [str |-> "char", wstr |-> "wc", u16str |-> "c16"]

PrimName == [bool |-> "bool", char |-> "char", c16 |-> "char16_t", wc |-> "wchar_t", i8 |-> "int8_t",
             u8 |-> "uint8_t", i16 |-> "int16_t", u16 |-> "uint16_t", i32 |-> "int32_t", u32 |-> "uint32_t",
             i64 |-> "int64_t", u64 |-> "uint64_t", f32 |-> "float", f64 |-> "double", f128 |-> "long double"]

RECURSIVE U(_)
U(T) == IF T.k = "alias" THEN U(T.e) ELSE T

RECURSIVE Ms(_)
Ms(T) == IF T.p = <<>> THEN T.ms ELSE Ms(T.p[1]) \o T.ms        \* all members, the inherited ones first

RECURSIVE NameOf(_), Within(_)
Several(T) == "md" \in DOMAIN T /\ T.e.k = "array"           \* an array made with several dimensions at once
Within(T) == IF Several(T) THEN Within(T.e) ELSE T.e
NameOf(T) ==
    CASE "nm" \in DOMAIN T -> T.nm                           \* an anonymous type that was given a name
      [] T.k \in Prims -> PrimName[T.k]
      [] T.k = "str" -> "std::string" \o (IF T.b > 0 THEN "_" \o Num(T.b) ELSE "")
      [] T.k = "wstr" -> "std::wstring" \o (IF T.b > 0 THEN "_" \o Num(T.b) ELSE "")
      [] T.k = "u16str" -> "std::u16string" \o (IF T.b > 0 THEN "_" \o Num(T.b) ELSE "")
      [] T.k = "array" -> "array_" \o Num(T.b) \o "_" \o NameOf(Within(T))
      [] T.k = "seq" -> "sequence_" \o (IF T.b > 0 THEN Num(T.b) \o "_" ELSE "") \o NameOf(T.e)
      [] T.k = "map" -> "map_" \o (IF T.b > 0 THEN Num(T.b) \o "_" ELSE "") \o NameOf(T.e)
      [] T.k = "pair" -> "pair_" \o NameOf(T.a) \o "_" \o NameOf(T.c)
      [] OTHER -> T.n

-----------------------------------------------------------------------------
(* Unions.  d is the (unaliased) discriminator type; labels are kept with its width.                                 *)
DiscWidth(u) == LET d == U(u.d) IN IF d.k = "enum" THEN d.w ELSE Width[d.k]
Labels(u, m) == { Resize(l, FALSE, DiscWidth(u)) : l \in Range(u.cs[m].ls) }
AllLabels(u) == UNION { Labels(u, m) : m \in 1..Len(u.cs) }
DefaultCases(u) == { m \in 1..Len(u.cs) : u.cs[m].df }
DefaultCase(u) == IF DefaultCases(u) = {} THEN 0 ELSE CHOOSE m \in DefaultCases(u) : TRUE
CaseNamed(u, n) == LET s == { m \in 1..Len(u.cs) : u.cs[m].n = n } IN IF s = {} THEN 0 ELSE CHOOSE m \in s : TRUE
CaseOfLabel(u, l) == LET s == { m \in 1..Len(u.cs) : l \in Labels(u, m) } IN IF s = {} THEN 0 ELSE CHOOSE m \in s : TRUE
LabelLess(u, m) == u.cs[m].ls = <<>>
\* A discriminator agrees with the selected case.
DiscAgrees(u, d, m) ==
    IF m = 0 \/ LabelLess(u, m) THEN d \notin AllLabels(u) ELSE d \in Labels(u, m)

-----------------------------------------------------------------------------
RECURSIVE Default(_)
Default(T) ==
    LET t == U(T) IN
    CASE t.k \in Floats -> <<0>>
      [] t.k \in Prims -> Zeros(Width[t.k])
      [] t.k = "enum" -> Zeros(t.w)
      [] t.k \in Strs \cup {"seq", "map"} -> <<>>
      [] t.k = "array" -> LET d == Default(t.e) IN TLCEval([i \in 1..t.b |-> d])
      [] t.k = "pair" -> <<Default(t.a), Default(t.c)>>
      [] t.k = "struct" -> LET ms == Ms(t) IN TLCEval([i \in 1..Len(ms) |-> Default(ms[i].t)])
      [] t.k = "union" -> LET m == DefaultCase(t) IN
                          IF m = 0 THEN <<ANY, 0>> ELSE <<ANY, m, Default(t.cs[m].t)>>

\* What selecting a case gives: its value stays if it was already the selected one.
Select(u, v, m) == IF v[2] = m THEN v ELSE <<ANY, m, Default(u.cs[m].t)>>

Allowed(e, x) == \E i \in 1..Len(e.es) : e.es[i].v = x

-----------------------------------------------------------------------------
(* Equality of values of one type (or of types that only differ in bounds).                                          *)
RECURSIVE Eq(_, _, _)
Eq(T, a, b) ==
    LET t == U(T) IN
    CASE t.k \in Prims \cup Strs \cup {"enum"} -> a = b
      [] t.k \in {"array", "seq"} -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(t.e, a[i], b[i])
      [] t.k = "pair" -> Eq(t.a, a[1], b[1]) /\ Eq(t.c, a[2], b[2])
      [] t.k = "map" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : Eq(t.e, a[i], b[j])
      [] t.k = "struct" -> LET ms == Ms(t) IN \A i \in 1..Len(ms) : Eq(ms[i].t, a[i], b[i])
      [] t.k = "union" -> a[2] = b[2] /\ (a[2] # 0 => a[1] = b[1] /\ Eq(t.cs[a[2]].t, a[3], b[3]))

\* The observed value b is one the specification allows when it predicts a (which may have unspecified parts).
RECURSIVE Same(_, _, _)
Same(T, a, b) ==
    LET t == U(T) IN
    CASE t.k \in Prims \cup Strs \cup {"enum"} -> a = ANY \/ a = b
      [] t.k \in {"array", "seq"} -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(t.e, a[i], b[i])
      [] t.k = "pair" -> Same(t.a, a[1], b[1]) /\ Same(t.c, a[2], b[2])
      [] t.k = "map" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : Same(t.e, a[i], b[j])
      [] t.k = "struct" -> LET ms == Ms(t) IN Len(b) = Len(ms) /\ \A i \in 1..Len(ms) : Same(ms[i].t, a[i], b[i])
      [] t.k = "union" -> a[2] = b[2] /\ (a[1] = ANY \/ a[2] = 0 \/ a[1] = b[1])
                          /\ (a[2] # 0 => Same(t.cs[a[2]].t, a[3], b[3]))

\* Every value of a type keeps its invariants: sizes and bounds, one value per key, an active case that agrees with
\* the discriminator.
RECURSIVE WellFormed(_, _)
WellFormed(T, v) ==
    LET t == U(T) IN
    CASE t.k \in Floats -> Len(v) >= 1
      [] t.k \in Prims -> Len(v) = Width[t.k]
      [] t.k = "enum" -> Len(v) = t.w
      [] t.k \in Strs -> t.b = 0 \/ Len(v) <= t.b
      [] t.k = "array" -> Len(v) = t.b /\ \A i \in 1..Len(v) : WellFormed(t.e, v[i])
      [] t.k = "seq" -> (t.b = 0 \/ Len(v) <= t.b) /\ \A i \in 1..Len(v) : WellFormed(t.e, v[i])
      [] t.k = "map" -> /\ t.b = 0 \/ Len(v) <= t.b
                        /\ \A i \in 1..Len(v) : WellFormed(t.e, v[i])
                        /\ \A i, j \in 1..Len(v) : i < j => ~Eq(t.e.a, v[i][1], v[j][1])
      [] t.k = "pair" -> WellFormed(t.a, v[1]) /\ WellFormed(t.c, v[2])
      [] t.k = "struct" -> LET ms == Ms(t) IN Len(v) = Len(ms) /\ \A i \in 1..Len(ms) : WellFormed(ms[i].t, v[i])
      [] t.k = "union" -> /\ v[2] \in 0..Len(t.cs)
                          /\ DiscAgrees(t, v[1], v[2])
                          /\ v[2] # 0 => WellFormed(t.cs[v[2]].t, v[3])

-----------------------------------------------------------------------------
(* Compatibility: the set of differences that must be ignored, or {"NONE"}.                                          *)
NONE == {"NONE"}
Join(S) == IF \E x \in S : "NONE" \in x THEN NONE ELSE UNION S

RECURSIVE Compat(_, _), CompatMembers(_, _, _)
\* bad: positions whose labels differ
CompatMembers(ma, mb, bad) ==
    LET n == Min2(Len(ma), Len(mb))
        one(i) == IF i \in bad THEN NONE
                  ELSE Join({ Compat(ma[i].t, mb[i].t), IF ma[i].n # mb[i].n THEN {"NAMES"} ELSE {} })
    IN  Join({ one(i) : i \in 1..n } \cup { IF Len(ma) # Len(mb) THEN {"MEMBERS"} ELSE {} })
Compat(A, B) ==
    LET a == U(A)
        b == U(B)
        boundFlag(f) == IF a.b = b.b THEN {} ELSE {f}
    IN
    IF a.k = "struct" /\ Len(Ms(a)) = 1 THEN Compat(b, Ms(a)[1].t)       \* a structure of one member is that member
    ELSE IF a.k # "struct" /\ b.k = "struct" THEN Compat(b, a)
    ELSE
    CASE a.k \in Prims ->
            IF b.k \notin Prims THEN NONE
            ELSE IF a.k = b.k THEN {}
            ELSE (IF Width[a.k] # Width[b.k] THEN {"WIDTH"} ELSE {})
                 \cup (IF FlagUnsigned(a.k) # FlagUnsigned(b.k) THEN {"SIGN"} ELSE {})
      [] a.k = "enum" ->
            IF b.k = "enum" THEN (IF a.w = b.w THEN {} ELSE {"WIDTH"})
            ELSE IF b.k \notin Prims THEN NONE
            ELSE (IF a.w # Width[b.k] THEN {"WIDTH"} ELSE {}) \cup (IF FlagUnsigned(b.k) THEN {} ELSE {"SIGN"})
      [] a.k # b.k -> NONE
      [] a.k \in Strs -> boundFlag("STRING")
      [] a.k = "array" -> Join({boundFlag("ARRAY"), Compat(a.e, b.e)})
      [] a.k = "seq" -> Join({boundFlag("SEQ"), Compat(a.e, b.e)})
      [] a.k = "map" -> Join({boundFlag("MAP"), Compat(a.e, b.e)})
      [] a.k = "pair" -> Join({Compat(a.a, b.a), Compat(a.c, b.c)})
      [] a.k = "struct" -> CompatMembers(Ms(a), Ms(b), {})
      [] a.k = "union" ->
            LET parts(u) == <<[n |-> "discriminator", t |-> u.d]>>
                            \o TLCEval([i \in 1..Len(u.cs) |-> [n |-> u.cs[i].n, t |-> u.cs[i].t]])
                wide(u, i) == { Resize(l, FALSE, 8) : l \in Labels(u, i) }
                bad == { i \in 1..Min2(Len(a.cs), Len(b.cs)) :
                            wide(a, i) # wide(b, i) \/ LabelLess(a, i) # LabelLess(b, i) }
            IN  CompatMembers(parts(a), parts(b), { i + 1 : i \in bad })

Convertible(A, B) == "NONE" \notin Compat(A, B)
Equals(A, B) == Compat(A, B) = {}

-----------------------------------------------------------------------------
(* Conversion of the value v of type S to the type T: <<>> if it is refused, <<value>> otherwise.                     *)
Trunc(q) == IF q >= 0 THEN q \div 4 ELSE -((-q) \div 4)
InRange(n, k) ==
    CASE k \in {"u8"} -> n \in 0..255
      [] k \in {"i8", "char"} -> n \in -128..127
      [] k \in {"u16", "c16"} -> n \in 0..65535
      [] k = "i16" -> n \in -32768..32767
      [] k \in {"u32", "u64"} -> n >= 0
      [] OTHER -> TRUE
ConvPrim(sk, tk, v) ==
    IF sk = tk THEN v
    ELSE IF v = ANY THEN ANY
    ELSE IF sk \in Floats THEN
        (IF Len(v) # 1 THEN ANY
         ELSE IF tk \in Floats THEN (IF v[1] \in -8000000..8000000 THEN v ELSE ANY)
         ELSE IF tk = "bool" THEN (IF v = <<0>> THEN <<0>> ELSE <<1>>)
         ELSE LET n == Trunc(v[1]) IN IF InRange(n, tk) THEN ToBytes(n, Width[tk]) ELSE ANY)
    ELSE IF tk \in Floats THEN
        (IF IsSmall(v, IsSigned(sk)) THEN <<4 * SmallVal(v, IsSigned(sk))>> ELSE ANY)
    ELSE IF tk = "bool" THEN (IF IsZero(v) THEN <<0>> ELSE <<1>>)
    ELSE Resize(v, IsSigned(sk), Width[tk])
EnumKind(t) == CASE t.w = 1 -> "u8" [] t.w = 2 -> "u16" [] OTHER -> "u32"
ScalarKind(t) == IF t.k = "enum" THEN EnumKind(t) ELSE t.k
Cut(s, b) == IF b > 0 /\ Len(s) > b THEN SubSeq(s, 1, b) ELSE s

RECURSIVE Conv(_, _, _), ConvAll(_, _, _), ConvEntries(_, _, _, _, _)
\* ts, ss: types; vs: values; all of the same length: <<>> if any is refused, otherwise <<values>>
ConvAll(ts, ss, vs) ==
    LET r == TLCEval([i \in 1..Len(vs) |-> Conv(ts[i], ss[i], vs[i])])
    IN  IF \E i \in 1..Len(r) : r[i] = <<>> THEN <<>> ELSE <<TLCEval([i \in 1..Len(r) |-> r[i][1]])>>
\* The entries of a map are converted one by one; those whose key becomes one already present are dropped.
ConvEntries(t, es, se, i, acc) ==
    IF i > Len(es) \/ (t.b > 0 /\ Len(acc) >= t.b) THEN <<acc>>
    ELSE LET c == Conv(t.e, se, es[i]) IN
         IF c = <<>> THEN <<>>
         ELSE IF \E j \in 1..Len(acc) : Eq(t.e.a, acc[j][1], c[1][1]) THEN ConvEntries(t, es, se, i + 1, acc)
         ELSE ConvEntries(t, es, se, i + 1, Append(acc, c[1]))
Conv(T, S, v) ==
    LET t == U(T)
        s == U(S)
    IN
    IF t.k # "struct" /\ s.k = "struct" THEN (IF Len(Ms(s)) = 1 THEN Conv(t, Ms(s)[1].t, v[1]) ELSE <<>>)
    ELSE
    CASE t.k \in Prims \cup {"enum"} ->
            IF s.k \in Prims \cup {"enum"} THEN <<ConvPrim(ScalarKind(s), ScalarKind(t), v)>> ELSE <<>>
      [] t.k = "struct" ->
            LET mt == Ms(t) IN
            IF Len(mt) = 1 /\ (s.k # "struct" \/ Len(Ms(s)) # 1)
            THEN LET c == Conv(mt[1].t, s, v) IN IF c = <<>> THEN <<>> ELSE <<<<c[1]>>>>
            ELSE IF s.k # "struct" THEN <<>>
            ELSE LET ms == Ms(s)
                     n == Min2(Len(mt), Len(ms))
                     c == ConvAll(TLCEval([i \in 1..n |-> mt[i].t]), TLCEval([i \in 1..n |-> ms[i].t]), SubSeq(v, 1, n))
                 IN  IF c = <<>> THEN <<>>
                     ELSE <<c[1] \o TLCEval([i \in 1..(Len(mt) - n) |-> Default(mt[n + i].t)])>>
      [] t.k # s.k -> <<>>
      [] t.k \in Strs -> <<Cut(v, t.b)>>
      [] t.k = "array" ->
            LET n == Min2(t.b, s.b)
                c == ConvAll(TLCEval([i \in 1..n |-> t.e]), TLCEval([i \in 1..n |-> s.e]), SubSeq(v, 1, n))
            IN  IF c = <<>> THEN <<>> ELSE <<c[1] \o TLCEval([i \in 1..(t.b - n) |-> Default(t.e)])>>
      [] t.k = "seq" ->
            LET x == Cut(v, t.b) IN ConvAll(TLCEval([i \in 1..Len(x) |-> t.e]), TLCEval([i \in 1..Len(x) |-> s.e]), x)
      [] t.k = "map" ->
            IF NameOf(t.e) # NameOf(s.e) /\ ~Equals(t.e, s.e) THEN <<>>
            ELSE ConvEntries(t, v, s.e, 1, <<>>)
      [] t.k = "pair" -> ConvAll(<<t.a, t.c>>, <<s.a, s.c>>, v)
      [] t.k = "union" ->
            LET wide(l) == Resize(l, FALSE, 8)
                cands == { m \in 1..Len(t.cs) :
                             \/ /\ v[2] # 0
                                /\ \E l \in Labels(t, m) :      \* an unknown discriminator is one of the selected case
                                        IF v[1] = ANY THEN wide(l) \in { wide(x) : x \in Labels(s, v[2]) }
                                        ELSE ~LabelLess(s, v[2]) /\ wide(l) = wide(v[1])
                             \/ v[2] # 0 /\ LabelLess(s, v[2]) /\ LabelLess(t, m) }
            IN  IF cands = {} THEN <<Default(t)>>
                ELSE LET m == CHOOSE x \in cands : TRUE
                         c == Conv(t.cs[m].t, s.cs[v[2]].t, v[3])
                     IN  IF c = <<>> THEN <<>>
                         ELSE <<<<IF v[1] = ANY \/ (LabelLess(t, m) /\ DiscWidth(t) # DiscWidth(s)) THEN ANY ELSE Resize(v[1], FALSE, DiscWidth(t)), m, c[1]>>>>

-----------------------------------------------------------------------------
(* Traversal of a value: the visits in order.  An element with un = TRUE stands for an union without selected case,   *)
(* which ends the traversal with an error.                                                                            *)
SmallIdx(b) == IF IsSmall(b, FALSE) /\ SmallVal(b, FALSE) < 1000000 THEN SmallVal(b, FALSE) ELSE -1

RECURSIVE Vis(_, _, _, _, _, _, _, _), VisKids(_, _, _, _, _)
\* kids: << [t, v, idx, mem], ... >>
VisKids(kids, i, deep, par, pmem) ==
    IF i > Len(kids) THEN <<>>
    ELSE Vis(kids[i].t, kids[i].v, deep, kids[i].idx, par, kids[i].agg, kids[i].mem, pmem)
         \o VisKids(kids, i + 1, deep, par, pmem)
\* par: <<>> or <<name, deep, index>> of the parent; agg: the parent is a structure or an union
Vis(T, v, deep, idx, par, agg, mem, pmem) ==
    LET t == U(T)
        me == <<NameOf(t), deep, idx>>
        here == [deep |-> deep, idx |-> idx, par |-> par, agg |-> agg, mem |-> mem, t |-> t, v |-> v, un |-> FALSE]
        kids == CASE t.k \in {"array", "seq", "map"} ->
                        TLCEval([i \in 1..Len(v) |-> [t |-> t.e, v |-> v[i], idx |-> i - 1, mem |-> "", agg |-> FALSE]])
                  [] t.k = "pair" ->
                        LET m == IF mem # "" THEN mem ELSE pmem IN
                        TLCEval([i \in 1..2 |-> [t |-> IF i = 1 THEN t.a ELSE t.c, v |-> v[i], idx |-> i - 1, mem |-> m, agg |-> FALSE]])
                  [] t.k = "struct" ->
                        LET ms == Ms(t) IN
                        TLCEval([i \in 1..Len(ms) |-> [t |-> ms[i].t, v |-> v[i], idx |-> i - 1, mem |-> ms[i].n, agg |-> TRUE]])
                  [] t.k = "union" ->
                        IF v[2] = 0 THEN <<>>
                        ELSE <<[t |-> t.cs[v[2]].t, v |-> v[3], idx |-> SmallIdx(v[1]), mem |-> t.cs[v[2]].n, agg |-> TRUE]>>
                  [] OTHER -> <<>>
    IN  IF t.k = "union" /\ v[2] = 0 THEN <<[here EXCEPT !.un = TRUE]>>
        ELSE <<here>> \o VisKids(kids, 1, deep + 1, me, mem)
\* The visits that happen, and whether all of them do
Visits(T, v) ==
    LET all == Vis(T, v, 0, 0, <<>>, FALSE, "", "")
        stops == { i \in 1..Len(all) : all[i].un }
    IN  IF stops = {} THEN [vs |-> all, whole |-> TRUE]
        ELSE [vs |-> SubSeq(all, 1, (CHOOSE i \in stops : \A j \in stops : i <= j) - 1), whole |-> FALSE]

\* Traversal of a type
RECURSIVE TVis(_, _, _, _, _, _), TVisKids(_, _, _, _, _)
TVisKids(kids, i, deep, par, pmem) ==
    IF i > Len(kids) THEN <<>>
    ELSE TVis(kids[i].t, deep, kids[i].idx, par, kids[i].mem, pmem) \o TVisKids(kids, i + 1, deep, par, pmem)
TVis(T, deep, idx, par, mem, pmem) ==
    LET t == U(T)
        me == <<NameOf(T), deep, idx>>
        kid(x, i, m) == [t |-> x, idx |-> i, mem |-> m]
        kids == CASE t.k \in {"array", "seq", "map"} -> <<kid(t.e, 0, "")>>
                  [] t.k = "pair" -> LET m == IF mem # "" THEN mem ELSE pmem IN <<kid(t.a, 0, m), kid(t.c, 1, m)>>
                  [] t.k = "struct" -> LET ms == Ms(t) IN TLCEval([i \in 1..Len(ms) |-> kid(ms[i].t, i - 1, ms[i].n)])
                  [] t.k = "union" -> <<kid(t.d, 0, "discriminator")>> \o TLCEval([i \in 1..Len(t.cs) |-> kid(t.cs[i].t, i, t.cs[i].n)])
                  [] OTHER -> <<>>
    IN  <<[deep |-> deep, idx |-> idx, par |-> par, mem |-> mem, name |-> NameOf(T)]>>
        \o TVisKids(kids, 1, deep + 1, me, mem)
TVisits(T) == TVis(T, 0, 0, <<>>, "", "")

-----------------------------------------------------------------------------
(* Text.  Floats are printed as ostreams do for the quarters that need at most six digits.                           *)
Quarters == << "", ".25", ".5", ".75" >>
FloatText(q) ==
    (IF q < 0 THEN "-" ELSE "") \o LET a == IF q < 0 THEN -q ELSE q IN Num(a \div 4) \o Quarters[(a % 4) + 1]
FixedCodes(q) ==                                            \* std::to_string(double)
    LET a == IF q < 0 THEN -q ELSE q
        frac == << <<48, 48>>, <<50, 53>>, <<53, 48>>, <<55, 53>> >>
    IN  (IF q < 0 THEN <<45>> ELSE <<>>) \o DigitsN(a \div 4) \o <<46>> \o frac[(a % 4) + 1] \o <<48, 48, 48, 48>>
\* A character that can't be printed appears as its code between braces (the driver does the same).
RECURSIVE Shown(_)
Shown(cs) == IF cs = <<>> THEN ""
             ELSE (IF Head(cs) \in 32..126 THEN Ascii[Head(cs) - 31] ELSE "{" \o Num(Head(cs)) \o "}") \o Shown(Tail(cs))
\* UTF-8 of the characters up to U+FFFF
RECURSIVE Utf8(_)
Utf8(cs) ==
    IF cs = <<>> THEN <<>>
    ELSE LET c == Head(cs) IN
         (IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>) \o Utf8(Tail(cs))
\* Wide texts are printed as UTF-16 units: of a wider character only the lowest 16 bits count
Units16(cs) == TLCEval([i \in 1..Len(cs) |-> cs[i] % 65536])
LeafText(t, v) ==
    CASE t.k \in Floats -> FloatText(v[1])
      [] t.k = "bool" -> Num(v[1])
      [] t.k = "char" -> Shown(v)
      [] t.k \in Chars -> Shown(Utf8(<<v[1] + 256 * v[2]>>))
      [] t.k \in Ints -> Text(Digits(v, IsSigned(t.k)))
      [] t.k = "str" -> Shown(v)
      [] t.k \in Strs -> Shown(Utf8(Units16(v)))
\* Characters that are half of a pair have no text of their own: what is printed then is left open
HalfPair(t, v) ==
    LET cs == CASE t.k \in Chars \ {"char"} -> <<v[1] + 256 * v[2]>>
                [] t.k \in Strs \ {"str"} -> Units16(v)
                [] OTHER -> <<>>
    IN  \E i \in 1..Len(cs) : cs[i] \in 55296..57343
Line(x) ==
    LET t == x.t
        name == NameOf(t)
        label == IF x.par = <<>> THEN ""
                 ELSE "[" \o (IF x.agg THEN x.mem ELSE Num(x.idx)) \o "] "
        body == CASE t.k \in Prims \cup Strs -> "<" \o name \o ">  " \o LeafText(t, x.v)
                  [] t.k = "array" -> "<" \o name \o ">"
                  [] t.k \in {"seq", "map"} -> "<" \o name \o "[" \o Num(Len(x.v)) \o "]>"
                  [] t.k = "struct" -> "Structure: <" \o name \o ">"
                  [] t.k = "enum" -> "Enumeration: <" \o name \o ">"
                  [] OTHER -> "Unsupported type: " \o name
    IN  Spaces(4 * x.deep) \o label \o body
=============================================================================
