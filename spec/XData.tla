-------------------------------- MODULE XData --------------------------------
(* Dynamic data: some slots, each holding no data or a data of some type, and every operation of the interface over   *)
(* them.  Exec(S, e) is the set of outcomes the command e may have in the state S: whether it is carried out or        *)
(* refused with an error, what it returns and the state it leaves.  A refused command leaves the state as it was,      *)
(* apart from the effects of the steps of its access path already taken (data["union"]["member"] selects the member).  *)
EXTENDS XTypes

CONSTANT Types                          \* the types of the history; commands name them by index

NoData == [k |-> "none"]
NSlots == 5
Empty == TLCEval([i \in 1..NSlots |-> [t |-> NoData, v |-> <<>>]])
\* S[i] = [t, v]: no data (t = NoData), a value (v = <<value>>), or a data whose value was moved out (v = <<>>)
Live(S, i) == S[i].v # <<>>
SetSlot(S, i, t, v) == [S EXCEPT ![i] = [t |-> t, v |-> v]]
SetVal(S, i, v) == [S EXCEPT ![i].v = <<v>>]

Refused(S) == {[ok |-> FALSE, r |-> <<>>, S |-> S]}
Done(S) == {[ok |-> TRUE, r |-> <<>>, S |-> S]}
Gives(S, r) == {[ok |-> TRUE, r |-> r, S |-> S]}
Flag(b) == IF b THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Parts of a value.  A position is a sequence of indexes; an element of a string is a position in its code units.    *)
RECURSIVE GetAt(_, _), PutAt(_, _, _)
GetAt(v, pos) == IF pos = <<>> THEN v ELSE GetAt(v[Head(pos)], Tail(pos))
PutAt(v, pos, x) == IF pos = <<>> THEN x ELSE [v EXCEPT ![Head(pos)] = PutAt(v[Head(pos)], Tail(pos), x)]

RECURSIVE Unsigned(_)
Unsigned(b) == IF b = <<>> THEN 0 ELSE Head(b) + 256 * Unsigned(Tail(b))
\* the character of these bytes: of four bytes it is signed
FromBytes(b) == IF Len(b) = 4 /\ b[4] >= 128 THEN -1 - Unsigned([i \in 1..4 |-> 255 - b[i]]) ELSE Unsigned(b)

EntryOf(T, v, key) ==                   \* position of the entry with this key, 0 if there is none
    LET s == { i \in 1..Len(v) : Eq(T.e.a, v[i][1], key) } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
MemberNamed(ms, n) == LET s == { i \in 1..Len(ms) : ms[i].n = n } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
Full(T, v) == T.b > 0 /\ Len(v) >= T.b
Elem(T) == IF T.k \in Strs THEN [k |-> CharOf[T.k]] ELSE T.e

\* One step of an access path from a part of (unaliased) type T and value v.  x: the part as the step leaves it;
\* sub: the position of the part it leads to.
NoStep == [ok |-> FALSE, T |-> NoData, x |-> <<>>, sub |-> <<>>, chr |-> FALSE]
Go(T, x, sub) == [ok |-> TRUE, T |-> U(T), x |-> x, sub |-> sub, chr |-> FALSE]
Indexed(T, v, n) ==
    IF n < 0 \/ n >= Len(v) THEN NoStep
    ELSE [Go(Elem(T), v, <<n + 1>>) EXCEPT !.chr = T.k \in Strs]
Step(T, v, s, ro) ==
    CASE s[1] = "i" ->
            (CASE T.k = "struct" -> IF s[2] \in 0..(Len(Ms(T)) - 1) THEN Go(Ms(T)[s[2] + 1].t, v, <<s[2] + 1>>) ELSE NoStep
               [] T.k = "pair" -> IF s[2] \in 0..1 THEN Go(IF s[2] = 0 THEN T.a ELSE T.c, v, <<s[2] + 1>>) ELSE NoStep
               [] T.k \in {"array", "seq"} \cup Strs -> Indexed(T, v, s[2])
               [] OTHER -> NoStep)
      [] s[1] = "n" ->
            (CASE T.k = "struct" ->
                    LET i == MemberNamed(Ms(T), s[2]) IN IF i = 0 THEN NoStep ELSE Go(Ms(T)[i].t, v, <<i>>)
               [] T.k = "union" ->
                    LET m == CaseNamed(T, s[2]) IN
                    IF m = 0 \/ (ro /\ v[2] # m) THEN NoStep
                    ELSE LET x == Select(T, v, m) IN Go(T.cs[m].t, x, <<3>>)
               [] OTHER -> NoStep)
      [] s[1] = "d" -> IF T.k = "union" THEN Go(T.d, v, <<1>>) ELSE NoStep
      [] s[1] \in {"k", "a"} ->
            IF T.k # "map" THEN NoStep
            ELSE IF ~Equals(T.e.a, Types[s[2]]) THEN NoStep
            ELSE LET key == Conv(T.e.a, Types[s[2]], s[3])[1]
                     i == EntryOf(T, v, key)
                 IN  IF i > 0 THEN Go(T.e.c, v, <<i, 2>>)
                     ELSE IF s[1] = "a" \/ Full(T, v) THEN NoStep
                     ELSE Go(T.e.c, Append(v, <<key, Default(T.e.c)>>), <<Len(v) + 1, 2>>)
      [] s[1] = "it" -> IF T.k \in {"array", "seq", "map"} \cup Strs THEN Indexed(T, v, s[2]) ELSE NoStep
      [] s[1] = "im" ->
            IF T.k = "struct" /\ s[2] \in 0..(Len(Ms(T)) - 1) THEN Go(Ms(T)[s[2] + 1].t, v, <<s[2] + 1>>) ELSE NoStep

RECURSIVE Follow(_, _, _, _, _, _, _, _)
\* root, pos: value of the slot so far, and position of the part (of type T) reached with the first i - 1 steps
Follow(S, s, p, i, ro, T, pos, chr) ==
    IF i > Len(p) THEN [ok |-> TRUE, S |-> S, s |-> s, T |-> T, pos |-> pos, chr |-> chr]
    ELSE LET part == GetAt(S[s].v[1], pos)
             st == IF chr THEN NoStep ELSE Step(T, part, p[i], ro)
         IN  IF ~st.ok THEN [ok |-> FALSE, S |-> S, s |-> s, T |-> T, pos |-> pos, chr |-> chr]
             ELSE Follow(IF ro THEN S ELSE SetVal(S, s, PutAt(S[s].v[1], pos, st.x)),
                         s, p, i + 1, ro, st.T, pos \o st.sub, st.chr)
At(S, s, p, ro) == Follow(S, s, p, 1, ro, U(S[s].t), <<>>, FALSE)
ValOf(L) ==
    LET x == GetAt(L.S[L.s].v[1], L.pos) IN IF L.chr THEN ToBytes(x, Width[L.T.k]) ELSE x
Put(L, x) == SetVal(L.S, L.s, PutAt(L.S[L.s].v[1], L.pos, IF L.chr THEN FromBytes(x) ELSE x))

-----------------------------------------------------------------------------
\* The value a data has after being filled with v through its interface
RECURSIVE Built(_, _)
Built(T, v) ==
    LET t == U(T) IN
    CASE t.k \in Prims \cup {"enum"} -> v
      [] t.k \in Strs -> Cut(v, t.b)
      [] t.k \in {"array", "seq", "map"} -> TLCEval([i \in 1..Len(v) |-> Built(t.e, v[i])])
      [] t.k = "pair" -> <<Built(t.a, v[1]), Built(t.c, v[2])>>
      [] t.k = "struct" -> TLCEval([i \in 1..Len(v) |-> Built(Ms(t)[i].t, v[i])])
      [] t.k = "union" -> IF v[2] = 0 THEN Default(t) ELSE <<ANY, v[2], Built(t.cs[v[2]].t, v[3])>>

\* May a value of the C++ type k be written to (read from) a part of type T?
Writable(T, k, v) ==
    IF T.k = "enum" THEN k \in Prims /\ Width[k] = T.w /\ Allowed(T, v) ELSE T.k = k
Readable(T, k) == IF T.k = "enum" THEN k \in Prims /\ Width[k] = T.w ELSE T.k = k
Written(T, v) == IF T.k \in Strs THEN Cut(v, T.b) ELSE v

\* std::to_string
StringCast(T, v) ==
    CASE T.k \in Floats -> IF Len(v) = 1 THEN FixedCodes(v[1]) ELSE ANY
      [] T.k = "str" -> v
      [] v = ANY -> ANY
      [] OTHER -> Digits(v, IsSigned(T.k))

-----------------------------------------------------------------------------
(* Operators.  Kinds and values of primitive operands; results as <<type name, value>>.                               *)
ArithOps == {"+", "-", "*", "/"}
IntOps == {"%", "<<", ">>", "&", "|", "^"}
LogicOps == {"&&", "||", "<", ">", "<=", ">=", "==", "!="}
Tame(a) == Len(a) = 1 /\ a[1] \in -4000000..4000000        \* exact in every floating point kind, and so are sums
Exact(q) == IF q \in -8000000..8000000 THEN <<q>> ELSE ANY
FloatRes(o, a, b) ==
    IF ~Tame(a) \/ ~Tame(b) THEN ANY
    ELSE CASE o = "+" -> <<a[1] + b[1]>>
           [] o = "-" -> <<a[1] - b[1]>>
           [] o = "*" -> IF a[1] \in -20000..20000 /\ b[1] \in -20000..20000 /\ (a[1] * b[1]) % 4 = 0
                         THEN Exact((a[1] * b[1]) \div 4) ELSE ANY
           [] o = "/" -> IF b[1] = 0 THEN ANY
                         ELSE LET n == IF b[1] < 0 THEN -4 * a[1] ELSE 4 * a[1]
                                  d == IF b[1] < 0 THEN -b[1] ELSE b[1]
                              IN  IF n % d = 0 THEN Exact(n \div d) ELSE ANY
           [] OTHER -> ANY
ShiftBy(b) == IF IsSmall(b, FALSE) THEN SmallVal(b, FALSE) ELSE 1000
IntRes(o, k, a, b) ==
    LET sg == IsSigned(k) IN
    CASE o = "+" -> Add(a, b)
      [] o = "-" -> Sub(a, b)
      [] o = "*" -> Mul(a, b)
      [] o = "/" -> IF IsZero(b) THEN ANY ELSE Div(a, b, sg)
      [] o = "%" -> IF IsZero(b) THEN ANY ELSE Mod(a, b, sg)
      [] o = "<<" -> IF ShiftBy(b) < 8 * Max2(4, Len(a)) THEN Shl(a, Min2(ShiftBy(b), 64)) ELSE ANY
      [] o = ">>" -> IF ShiftBy(b) < 8 * Max2(4, Len(a)) THEN Shr(a, Min2(ShiftBy(b), 64), sg) ELSE ANY
      [] o = "&" -> AndB(a, b)
      [] o = "|" -> OrB(a, b)
      [] o = "^" -> XorB(a, b)
ArithRes(o, k, a, b) == IF k \in Floats THEN FloatRes(o, a, b) ELSE IntRes(o, k, a, b)
Less(k, a, b) == IF k \in Floats THEN a[1] < b[1] ELSE Lt(a, b, IsSigned(k))
Truth(k, a) == IF k \in Floats THEN a # <<0>> ELSE ~IsZero(a)
LogicRes(o, k, a, b) ==
    CASE o = "&&" -> Truth(k, a) /\ Truth(k, b)
      [] o = "||" -> Truth(k, a) \/ Truth(k, b)
      [] o = "<" -> Less(k, a, b)
      [] o = ">" -> Less(k, b, a)
      [] o = "<=" -> ~Less(k, b, a)
      [] o = ">=" -> ~Less(k, a, b)
Prim(k, v) == <<PrimName[k], v>>
Bool(b) == <<"bool", <<Flag(b)>>>>
ArithAllowed(o, k) == k \in Ints \/ (k \in Floats /\ o \in ArithOps)
UnaryAllowed(o, k) ==
    CASE o = "neg" -> k \in Floats \cup SignedInts
      [] o = "com" -> k \in SignedInts
      [] o = "not" -> k \in Ints \cup Chars \cup {"bool"} \cup Strs
      [] OTHER -> k \in Ints
UnaryRes(o, k, a) ==
    CASE o = "neg" -> IF k \in Floats THEN (IF Len(a) = 1 THEN <<-a[1]>> ELSE ANY) ELSE Neg(a)
      [] o = "com" -> Inv(a)
      [] o \in {"preinc", "postinc"} -> Add(a, One(Len(a)))
      [] o \in {"predec", "postdec"} -> Sub(a, One(Len(a)))

Unary(S, e) ==
    LET T == U(S[e.s].t)
        a == S[e.s].v[1]
    IN  IF ~UnaryAllowed(e.o, T.k) THEN Refused(S)
        ELSE IF e.o = "not" THEN Gives(S, Bool(IF T.k \in Strs THEN a = <<>> ELSE IsZero(a)))
        ELSE LET x == UnaryRes(e.o, T.k, a) IN
             Gives(IF e.o \in {"neg", "com"} THEN S ELSE SetVal(S, e.s, x), Prim(T.k, x))

Binary(S, e) ==
    LET T == U(S[e.s].t)
        a == S[e.s].v[1]
        L == At(S, e.f, e.q, TRUE)
        b == ValOf(L)
    IN  IF ~L.ok THEN Refused(S)
        ELSE IF e.o \in {"==", "!="} THEN Gives(S, Bool((e.o = "==") = Eq(T, a, b)))
        ELSE IF e.o \in LogicOps THEN
            (IF T.k \notin Prims THEN Refused(S)
             ELSE IF L.T.k # T.k THEN
                (IF L.T.k = "enum" /\ Readable(L.T, T.k) /\ T.k \in Floats THEN Gives(S, <<"bool", ANY>>)
                 ELSE IF L.T.k = "enum" /\ Readable(L.T, T.k) THEN Gives(S, Bool(LogicRes(e.o, T.k, a, b)))
                 ELSE IF e.o = "&&" /\ ~Truth(T.k, a) THEN Refused(S) \cup Gives(S, Bool(FALSE))
                 ELSE IF e.o = "||" /\ Truth(T.k, a) THEN Refused(S) \cup Gives(S, Bool(TRUE))
                 ELSE Refused(S))
             ELSE IF T.k \in Floats /\ e.o \notin {"&&", "||"} /\ (Len(a) # 1 \/ Len(b) # 1) THEN Gives(S, <<"bool", ANY>>)
             ELSE Gives(S, Bool(LogicRes(e.o, T.k, a, b))))
        ELSE IF ~ArithAllowed(e.o, T.k) \/ ~Readable(L.T, T.k) THEN Refused(S)
        ELSE Gives(S, Prim(T.k, ArithRes(e.o, T.k, a, b)))

Base(o) == CASE o = "+=" -> "+" [] o = "-=" -> "-" [] o = "*=" -> "*" [] o = "/=" -> "/" [] o = "%=" -> "%"
             [] o = "<<=" -> "<<" [] o = ">>=" -> ">>" [] o = "&=" -> "&" [] o = "|=" -> "|" [] o = "^=" -> "^"
Compound(S, e) ==
    LET T == U(S[e.s].t)
        L == At(S, e.f, e.q, TRUE)
    IN  IF ~L.ok THEN Refused(S)
        ELSE IF ~ArithAllowed(Base(e.o), T.k) \/ ~Readable(L.T, T.k) THEN Refused(S)
        ELSE LET x == ArithRes(Base(e.o), T.k, S[e.s].v[1], ValOf(L)) IN Gives(SetVal(S, e.s, x), Prim(T.k, x))
CompoundT(S, e) ==
    LET T == U(S[e.s].t) IN
    IF e.k \in Chars \cup {"bool"} \/ ~Readable(T, e.k) THEN Refused(S)
    ELSE LET x == ArithRes(Base(e.o), e.k, S[e.s].v[1], e.v) IN
         IF T.k = "enum" /\ ~Allowed(T, x) THEN Refused(S)
         ELSE Gives(SetVal(S, e.s, x), <<NameOf(T), x>>)

-----------------------------------------------------------------------------
(* Traversals and text                                                                                                *)
VisitRec(x) == <<<<x.deep, <<x.idx>>, x.par, x.mem, NameOf(x.t)>>, x.v>>
\* The visitor ends it at the visit number stop, with the verdict how (0, 1) or an error of its own (2).
Traversal(S, L, stop, how) ==
    LET all == Visits(L.T, ValOf(L))
        n == Len(all.vs)
    IN  IF stop \in 1..n THEN (IF how = 2 THEN Refused(S) ELSE Gives(S, <<TLCEval([i \in 1..stop |-> VisitRec(all.vs[i])]), how>>))
        ELSE IF ~all.whole THEN Refused(S)
        ELSE Gives(S, <<TLCEval([i \in 1..n |-> VisitRec(all.vs[i])]), 1>>)

\* A traversal that gives the value x to every leaf of the kind k, and ends after `left` visits.  An union without
\* selected case ends it too; what was written before stays.  <<value, leaves written, visits left, how it goes on>>
RECURSIVE SetLeaves(_, _, _, _, _), SetAll(_, _, _, _, _, _, _)
SetAll(ts, v, k, x, i, n, left) ==
    IF i > Len(v) THEN <<v, n, left, "on">>
    ELSE LET r == SetLeaves(ts[i], v[i], k, x, left)
             w == [v EXCEPT ![i] = r[1]]
         IN  IF r[4] = "on" THEN SetAll(ts, w, k, x, i + 1, n + r[2], r[3]) ELSE <<w, n + r[2], r[3], r[4]>>
SetLeaves(T, v, k, x, left) ==
    LET t == U(T)
        mine == t.k \in Prims \cup Strs /\ t.k = k
        w == IF mine THEN Written(t, x) ELSE v
    IN
    IF t.k = "union" /\ v[2] = 0 THEN <<v, 0, left, "none">>
    ELSE IF left = 1 THEN <<w, Flag(mine), 0, "stop">>
    ELSE
    CASE t.k \in Prims \cup Strs \cup {"enum"} -> <<w, Flag(mine), left - 1, "on">>
      [] t.k \in {"array", "seq", "map"} -> SetAll(TLCEval([i \in 1..Len(v) |-> t.e]), v, k, x, 1, 0, left - 1)
      [] t.k = "pair" -> SetAll(<<t.a, t.c>>, v, k, x, 1, 0, left - 1)
      [] t.k = "struct" -> SetAll(TLCEval([i \in 1..Len(v) |-> Ms(t)[i].t]), v, k, x, 1, 0, left - 1)
      [] t.k = "union" -> LET r == SetLeaves(t.cs[v[2]].t, v[3], k, x, left - 1) IN <<<<v[1], v[2], r[1]>>, r[2], r[3], r[4]>>

Elements(L) ==                          \* the elements of a collection, as parts of their own
    LET v == ValOf(L) IN
    IF L.T.k \in Strs THEN TLCEval([i \in 1..Len(v) |-> ToBytes(v[i], Width[CharOf[L.T.k]])]) ELSE v
Collections == {"array", "seq", "map"} \cup Strs

\* Setting the discriminator of the union at L to the label l
SetDisc(L, l) ==
    LET u == L.T
        v == ValOf(L)
        m == CaseOfLabel(u, l)
        free == { d \in DefaultCases(u) : LabelLess(u, d) }     \* its own label is the library's choice
        to(c) == IF v[2] \in {0, c} THEN Done(Put(L, <<l, c, Select(u, v, c)[3]>>)) ELSE Refused(L.S)
    IN  IF m # 0 THEN to(m)
        ELSE IF free = {} THEN Refused(L.S)
        ELSE Refused(L.S) \cup to(CHOOSE d \in free : TRUE)

-----------------------------------------------------------------------------
Exec(S, e) ==
    LET here(ro) == At(S, e.s, e.p, ro)
        isRo == "ro" \in DOMAIN e /\ e.ro = 1
        X == here(isRo)                 \* the part the command reads
        P == here(FALSE)                \* the part it writes
        mustBe(L, cond, result) == IF ~L.ok THEN Refused(L.S) ELSE IF ~cond THEN Refused(L.S) ELSE result
    IN
    CASE e.op = "new" -> Done(SetSlot(S, e.s, Types[e.t], <<Default(Types[e.t])>>))
      [] e.op = "build" -> Done(SetSlot(S, e.s, Types[e.t], <<Built(Types[e.t], e.v)>>))
      [] e.op = "del" -> Done(SetSlot(S, e.s, NoData, <<>>))
      [] e.op = "copy" -> Done(SetSlot(S, e.s, S[e.f].t, S[e.f].v))
      [] e.op = "move" ->
            Done(SetSlot([S EXCEPT ![e.f].v = <<>>], e.s, S[e.f].t, S[e.f].v))
      [] e.op = "copyref" ->
            LET L == At(S, e.f, e.q, isRo) IN
            IF ~L.ok THEN Refused(L.S) ELSE Done(SetSlot(L.S, e.s, L.T, <<ValOf(L)>>))
      [] e.op = "conv" ->
            LET L == At(S, e.f, e.q, isRo) IN
            IF ~L.ok THEN Refused(L.S)
            ELSE IF ~Convertible(Types[e.t], L.T) THEN Refused(L.S)
            ELSE LET c == Conv(Types[e.t], L.T, ValOf(L)) IN
                 IF c = <<>> THEN Refused(L.S) ELSE Done(SetSlot(L.S, e.s, Types[e.t], c))
      [] e.op \in {"assign", "assignref"} ->
            LET L == At(S, e.f, IF e.op = "assign" THEN <<>> ELSE e.q, TRUE) IN
            IF ~L.ok THEN Refused(S)
            ELSE IF ~Equals(S[e.s].t, L.T) THEN Refused(S)
            ELSE LET c == Conv(S[e.s].t, L.T, ValOf(L)) IN
                 IF c = <<>> THEN Refused(S) ELSE Done(SetVal(S, e.s, c[1]))
      [] e.op = "setref" ->
            IF ~P.ok THEN Refused(P.S)
            ELSE LET L == At(P.S, e.f, e.q, FALSE) IN
                 IF ~L.ok THEN Refused(L.S)
                 ELSE IF ~Equals(P.T, L.T) THEN Refused(L.S)
                 ELSE LET c == Conv(P.T, L.T, ValOf(L)) IN
                      IF c = <<>> THEN Refused(L.S) ELSE Done(Put([P EXCEPT !.S = L.S], c[1]))
      [] e.op = "set" -> mustBe(P, Writable(P.T, e.k, e.v), Done(Put(P, Written(P.T, e.v))))
      [] e.op = "setself" ->
            mustBe(P, Readable(P.T, e.k) /\ Writable(P.T, e.k, ValOf(P)), Done(P.S))
      [] e.op = "get" -> mustBe(X, Readable(X.T, e.k), Gives(X.S, ValOf(X)))
      [] e.op = "cast" ->
            mustBe(X, X.T.k \in Prims \cup {"enum"}, Gives(X.S, ConvPrim(ScalarKind(X.T), e.k, ValOf(X))))
      [] e.op = "caststr" ->
            mustBe(X, X.T.k \in Prims \cup {"enum", "str"}, Gives(X.S, StringCast(X.T, ValOf(X))))
      [] e.op = "push" ->
            mustBe(P, P.T.k = "seq" /\ U(P.T.e).k = e.k /\ ~Full(P.T, ValOf(P)),
                   Done(Put(P, Append(ValOf(P), Written(U(P.T.e), e.v)))))
      [] e.op = "pushref" ->
            IF ~P.ok THEN Refused(P.S)
            ELSE LET L == At(P.S, e.f, e.q, FALSE)
                     Q == [P EXCEPT !.S = L.S]
                 IN  mustBe(L, P.T.k = "seq" /\ Equals(P.T.e, L.T) /\ ~Full(P.T, ValOf(Q)),
                            Done(Put(Q, Append(ValOf(Q), Conv(P.T.e, L.T, ValOf(L))[1]))))
      [] e.op = "hugesize" -> Refused(P.S)                       \* more than a sequence, or the memory, can hold
      [] e.op = "newhuge" -> Refused(S)
      [] e.op = "resize" ->
            mustBe(P, P.T.k = "seq" /\ (P.T.b = 0 \/ e.n <= P.T.b),
                   LET n == Len(ValOf(P)) IN
                   Done(Put(P, ValOf(P) \o TLCEval([i \in 1..(e.n - n) |-> Default(P.T.e)]))))
      [] e.op \in {"insert", "insertpair"} ->
            IF ~P.ok THEN Refused(P.S)
            ELSE LET L == At(P.S, e.f, e.q, TRUE)
                     src == IF e.op = "insert" THEN L.T ELSE Types[e.t]
                 IN  IF e.op = "insert" /\ ~L.ok THEN Refused(P.S)
                     ELSE IF P.T.k # "map" THEN Refused(P.S)
                     ELSE IF ~Equals(P.T.e, src) THEN Refused(P.S)
                     ELSE LET v == ValOf(P)
                              x == Conv(P.T.e, src, IF e.op = "insert" THEN ValOf(L) ELSE Built(src, e.v))[1]
                          IN  IF EntryOf(P.T, v, x[1]) > 0 \/ Full(P.T, v) THEN Gives(P.S, <<0>>)
                              ELSE Gives(Put(P, Append(v, x)), <<1>>)
      [] e.op = "haskey" ->
            mustBe(P, P.T.k = "map" /\ Equals(P.T.e.a, Types[e.t]),
                   Gives(P.S, <<Flag(EntryOf(P.T, ValOf(P), Conv(P.T.e.a, Types[e.t], Built(Types[e.t], e.v))[1]) > 0)>>))
      [] e.op = "size" ->
            mustBe(X, X.T.k \in Collections \cup {"struct", "union", "pair"},
                   Gives(X.S, <<CASE X.T.k \in Collections -> Len(ValOf(X))
                                  [] X.T.k = "struct" -> Len(Ms(X.T))
                                  [] X.T.k = "union" -> Len(X.T.cs) + 1
                                  [] X.T.k = "pair" -> 2>>))
      [] e.op = "bounds" -> mustBe(X, X.T.k \in Collections, Gives(X.S, <<X.T.b>>))
      [] e.op = "dset" -> mustBe(P, P.T.k = "union", SetDisc(P, Resize(e.v, FALSE, DiscWidth(P.T))))
      [] e.op = "dsetref" ->
            LET L == At(P.S, e.f, e.q, TRUE) IN
            IF ~P.ok THEN Refused(P.S)
            ELSE mustBe(L, P.T.k = "union", SetDisc(P, Resize(ValOf(L), FALSE, DiscWidth(P.T))))
      [] e.op = "cur" -> mustBe(X, X.T.k = "union" /\ ValOf(X)[2] # 0, Gives(X.S, <<X.T.cs[ValOf(X)[2]].n>>))
      [] e.op = "touch" -> mustBe(X, TRUE, Done(X.S))
      [] e.op = "getmember" ->
            IF ~P.ok THEN Refused(P.S)
            ELSE IF P.chr THEN Refused(P.S)
            ELSE LET st == Step(P.T, ValOf(P), <<"n", e.n>>, TRUE) IN
                 IF ~st.ok THEN Refused(P.S) ELSE Gives(P.S, GetAt(st.x, st.sub))
      [] e.op = "eq" ->
            LET A == here(TRUE)
                B == At(S, e.f, e.q, TRUE)
                same == Eq(A.T, ValOf(A), ValOf(B))
            IN  IF ~A.ok \/ ~B.ok THEN Refused(S)
                ELSE UNION { Gives(S, <<Flag(same), Flag(~same), Flag(same), h>>) : h \in IF same THEN {1} ELSE IF e.distinct = 1 THEN {0} ELSE {0, 1} }
      [] e.op = "selfeq" -> LET A == here(TRUE) IN mustBe(A, TRUE, Gives(S, <<1, 0>>))
      [] e.op = "rehash" -> LET A == here(TRUE) IN mustBe(A, TRUE, Gives(S, <<1, 1>>))
      [] e.op = "iter" -> mustBe(X, X.T.k \in Collections, Gives(X.S, Elements(X)))
      [] e.op = "items" ->
            mustBe(X, X.T.k = "struct",
                   LET ms == Ms(X.T) IN
                   Gives(X.S, TLCEval([i \in 1..Len(ms) |-> <<ms[i].n, ValOf(X)[i], NameOf(ms[i].t)>>])))
      [] e.op = "vec" ->
            mustBe(X, X.T.k \in Collections /\ (X.T.k # "map" => U(Elem(X.T)).k = e.k) /\ X.T.k # "map",
                   Gives(X.S, Elements(X)))
      [] e.op = "foreach" -> IF ~X.ok THEN Refused(X.S) ELSE Traversal(X.S, X, e.stop, e.how)
      [] e.op = "foreachset" ->
            IF ~P.ok THEN Refused(P.S)
            ELSE LET r == SetLeaves(P.T, ValOf(P), e.k, e.v, IF e.stop = 0 THEN 1000000 ELSE e.stop)
                     S1 == Put(P, r[1])
                     vs == Visits(P.T, ValOf(P)).vs
                     seen(n) == TLCEval([i \in 1..n |-> VisitRec(vs[i])[1]])
                 IN  CASE r[4] = "on" -> Gives(S1, <<seen(Len(vs)), 1, r[2]>>)
                       [] r[4] = "stop" /\ e.how # 2 -> Gives(S1, <<seen(e.stop), e.how, r[2]>>)
                       [] OTHER -> Refused(S1)
      [] e.op = "print" ->
            IF ~X.ok THEN Refused(X.S)
            ELSE LET all == Visits(X.T, ValOf(X)) IN
                 IF ~all.whole THEN Refused(X.S)
                 ELSE IF \E i \in 1..Len(all.vs) : U(all.vs[i].t).k \in Floats /\ (Len(all.vs[i].v) # 1 \/ all.vs[i].v[1] \notin -39999..39999)
                 THEN Gives(X.S, ANY)                        \* the digits of an arbitrary number
                 ELSE IF \E i \in 1..Len(all.vs) : HalfPair(U(all.vs[i].t), all.vs[i].v) THEN Refused(X.S) \cup Gives(X.S, ANY)
                 ELSE Gives(X.S, TLCEval([i \in 1..Len(all.vs) |-> Line(all.vs[i])]))
      [] e.op = "unop" -> Unary(S, e)
      [] e.op = "binop" -> Binary(S, e)
      [] e.op = "opas" -> Compound(S, e)
      [] e.op = "opasT" -> CompoundT(S, e)
      [] e.op = "compat" ->
            LET c == Compat(Types[e.t], Types[e.u]) IN
            Gives(S, SelectSeq(<<"NONE", "SIGN", "WIDTH", "SEQ", "ARRAY", "STRING", "NAMES", "MEMBERS", "MAP">>,
                               LAMBDA f : f \in c))
      [] e.op = "tvisit" ->
            LET all == TVisits(Types[e.t])
                rec(x) == <<x.deep, <<x.idx>>, x.par, x.mem, x.name>>
                n == Len(all)
                stops == e.stop \in 1..n
            IN  IF stops /\ e.how = 2 THEN Refused(S)
                ELSE Gives(S, <<TLCEval([i \in 1..(IF stops THEN e.stop ELSE n) |-> rec(all[i])]), IF stops THEN e.how ELSE 1>>)
      [] e.op = "tname" -> Gives(S, <<NameOf(Types[e.t])>>)
=============================================================================
