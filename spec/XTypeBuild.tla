----------------------------- MODULE XTypeBuild -----------------------------
(* Declarations of types: some slots, each holding no type or a type that is being declared, and some data created     *)
(* from them.  Exec(S, e) is the set of outcomes of the command e in the state S: whether it is carried out or refused *)
(* with an error, what it answers and the state it leaves; a refused declaration leaves everything as it was.  Types   *)
(* are values here, so that whatever took a type keeps it as it was when it was taken.                                 *)
EXTENDS XTypes

CONSTANT Types                          \* types that commands name by index

NSlots == 5
NData == 2
NoType == [k |-> "none"]
NHeld == 3
Empty == [hs |-> TLCEval([i \in 1..NHeld |-> NoType]), ts |-> TLCEval([i \in 1..NSlots |-> NoType]), ds |-> TLCEval([i \in 1..NData |-> <<>>])]
Refused(S) == {[ok |-> FALSE, r |-> <<>>, S |-> S]}
Gives(S, r) == {[ok |-> TRUE, r |-> r, S |-> S]}
Done(S) == Gives(S, <<>>)
Flag(b) == IF b THEN 1 ELSE 0
Src(S, s) == IF s[1] = "s" THEN S.ts[s[2]] ELSE Types[s[2]]
SetType(S, i, t) == [S EXCEPT !.ts[i] = t]
Named == {"struct", "union", "enum", "alias"}
Renamed(T, n) == IF T.k \in Named THEN [T EXCEPT !.n = n] ELSE [nm |-> n] @@ T
\* An array of some dimensions of a type
RECURSIVE ArrayOf(_, _)
ArrayOf(t, bs) == IF Len(bs) = 1 THEN [k |-> "array", b |-> bs[1], e |-> t]
                  ELSE [k |-> "array", b |-> bs[1], e |-> ArrayOf(t, Tail(bs)), md |-> 1]

-----------------------------------------------------------------------------
(* What the interface of a type tells of it                                                                           *)
Sorted(ls) == SetToSortSeq(ls, LAMBDA a, b : Lt(a, b, TRUE))
Annot(m, f, d) == IF f \in DOMAIN m THEN m[f] ELSE d
RECURSIVE Desc(_)
DescMember(m) == <<m.n, Desc(m.t), Annot(m, "id", <<>>), Annot(m, "key", 0), Annot(m, "opt", 0)>>
LabelsOf(T, i) == Sorted({ Resize(l, FALSE, 8) : l \in Labels(T, i) })
DefaultName(T) == IF DefaultCase(T) = 0 THEN "" ELSE T.cs[DefaultCase(T)].n
Desc(T) ==
    CASE T = NoType -> <<>>
      [] T.k \in Prims -> <<T.k, NameOf(T)>>
      [] T.k \in Strs -> <<T.k, T.b, NameOf(T)>>
      [] T.k = "enum" -> <<"enum", T.n, T.w, TLCEval([i \in 1..Len(T.es) |-> <<T.es[i].n, T.es[i].v>>])>>
      [] T.k = "alias" -> <<"alias", T.n, Desc(T.e), NameOf(U(T))>>
      [] T.k \in {"array", "seq", "map"} -> <<T.k, T.b, NameOf(T), Desc(T.e)>>
      [] T.k = "pair" -> <<"pair", NameOf(T), Desc(T.a), Desc(T.c)>>
      [] T.k = "struct" ->
            LET ms == Ms(T) IN
            <<"struct", T.n, IF T.p = <<>> THEN <<>> ELSE <<T.p[1].n, Len(Ms(T.p[1]))>>,
              TLCEval([i \in 1..Len(ms) |-> DescMember(ms[i])])>>
      [] T.k = "union" ->
            <<"union", T.n, Desc(T.d), DefaultName(T), Len(T.cs) + 1,
              TLCEval([i \in 1..Len(T.cs) |-> DescMember(T.cs[i]) \o <<LabelsOf(T, i), Flag(T.cs[i].df)>>])>>
DescDisc(T) == DescMember([n |-> "discriminator", t |-> T.d])

-----------------------------------------------------------------------------
(* Union labels                                                                                                       *)
Reserved(w) == TLCEval([i \in 1..w |-> IF i = w THEN 127 ELSE 255])      \* stands for the default case without labels
LabelKinds == [i64 |-> TRUE, i32 |-> TRUE, i8 |-> TRUE, char |-> TRUE, u32 |-> FALSE, u8 |-> FALSE]    \* signed?
LabelOk(T, l) ==
    /\ l # Reserved(DiscWidth(T))
    /\ U(T.d).k = "enum" => Allowed(U(T.d), l)
    /\ l \notin AllLabels(T)

\* Labels written as text, given as character codes: <<>> if it isn't a label of that discriminator, <<bytes>> otherwise
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE Parse(_, _, _)
Parse(cs, base, acc) == IF cs = <<>> \/ Digit(Head(cs)) >= base THEN acc ELSE Parse(Tail(cs), base, acc * base + Digit(Head(cs)))
Number(cs) ==
    IF Len(cs) > 1 /\ cs[1] = 45 THEN -Parse(Tail(cs), 10, 0)
    ELSE IF Len(cs) > 2 /\ cs[1] = 48 /\ cs[2] \in {88, 120} THEN Parse(SubSeq(cs, 3, Len(cs)), 16, 0)
    ELSE IF Len(cs) > 1 /\ cs[1] = 48 THEN Parse(Tail(cs), 8, 0)
    ELSE Parse(cs, 10, 0)
TextLabel(T, cs, text) ==
    LET d == U(T.d)
        w == DiscWidth(T)
    IN
    CASE d.k = "bool" -> IF text = "TRUE" THEN <<<<1>>>> ELSE IF text = "FALSE" THEN <<<<0>>>> ELSE <<>>
      [] d.k \in Chars -> <<ToBytes(IF Len(cs) = 1 THEN cs[1] ELSE cs[2], w)>>              \* x or 'x'
      [] d.k = "enum" /\ cs[1] \notin 48..57 ->
            LET s == { i \in 1..Len(d.es) : d.es[i].n = text } IN
            IF s = {} THEN <<>> ELSE <<d.es[CHOOSE i \in s : TRUE].v>>
      [] OTHER -> <<ToBytes(Number(cs), w)>>

-----------------------------------------------------------------------------
MemberOf(S, e) ==
    LET full == e.how = 0 IN
    [n |-> e.n, t |-> Src(S, e.src), id |-> IF full /\ e.id # <<>> /\ e.id[1] >= 0 THEN e.id ELSE <<>>,
     key |-> IF full THEN e.key ELSE 0, opt |-> IF full THEN e.opt ELSE 0]
Names(T) == IF T.k = "struct" THEN { m.n : m \in Range(Ms(T)) } ELSE { m.n : m \in Range(T.cs) } \cup {"discriminator"}

ExecMember(S, e) ==
    LET T == S.ts[e.s] IN
    IF e.n \in Names(T) THEN Refused(S)
    ELSE Gives(SetType(S, e.s, [T EXCEPT !.ms = Append(@, MemberOf(S, e))]), <<1>>)

ExecCase(S, e) ==
    LET T == S.ts[e.s]
        text == e.lk = "text"
        parsed == TLCEval([i \in 1..Len(e.ls) |-> IF e.ls[i] = "default" THEN <<<<>>>> ELSE TextLabel(T, e.lt[i], e.ls[i])])
        defaults == { i \in 1..Len(e.ls) : e.ls[i] = "default" }
        df == IF text THEN defaults # {} ELSE e.df
        ls == IF text THEN { parsed[i][1] : i \in (1..Len(e.ls)) \ defaults }
              ELSE { Resize(Resize(l, LabelKinds[e.lk], 8), FALSE, DiscWidth(T)) : l \in Range(e.ls) }
        m == MemberOf(S, e)
    IN
    IF \/ text /\ (Cardinality(defaults) > 1 \/ \E i \in 1..Len(e.ls) : parsed[i] = <<>>)
    THEN Refused(S)
    ELSE IF \/ ~df /\ ls = {}
            \/ df /\ DefaultCase(T) # 0
            \/ e.n \in Names(T)
            \/ \E l \in ls : ~LabelOk(T, l)
    THEN Refused(S)
    ELSE Gives(SetType(S, e.s, [T EXCEPT !.cs = Append(@, [n |-> m.n, t |-> m.t, id |-> m.id, key |-> m.key, opt |-> m.opt,
                                                           ls |-> Sorted(ls), df |-> df])]), <<1>>)

MaxOf(w) == TLCEval([i \in 1..w |-> 255])
ExecEnumerator(S, e) ==
    LET T == S.ts[e.s]
        n == Len(T.es)
        full == n > 0 /\ T.es[n].v = MaxOf(T.w)
        next == IF n = 0 THEN Zeros(T.w) ELSE Add(T.es[n].v, One(T.w))
        v == IF e.v = <<>> THEN next ELSE e.v
    IN
    IF full \/ Lt(v, next, FALSE) \/ \E i \in 1..n : T.es[i].n = e.n THEN Refused(S)
    ELSE Gives(SetType(S, e.s, [T EXCEPT !.es = Append(@, [n |-> e.n, v |-> v])]), <<1>>)

DiscOk(T) == LET d == U(T) IN d.k \in Prims \ Floats \/ d.k = "enum"

ExecFind(S, e) ==
    LET T == S.ts[e.s] IN
    CASE T.k = "enum" ->
            LET s == { i \in 1..Len(T.es) : T.es[i].n = e.n } IN
            Gives(S, IF s = {} THEN <<0, "refused">> ELSE <<1, T.es[CHOOSE i \in s : TRUE].v>>)
      [] T.k = "union" /\ e.n = "discriminator" -> Gives(S, <<1, DescDisc(T)>>)
      [] OTHER ->
            LET ms == IF T.k = "union" THEN T.cs ELSE Ms(T)
                s == { i \in 1..Len(ms) : ms[i].n = e.n }
            IN  Gives(S, IF s = {} THEN <<0, "refused">> ELSE <<1, DescMember(ms[CHOOSE i \in s : TRUE])>>)

ExecAt(S, e) ==
    LET T == S.ts[e.s]
        ms == IF T.k = "union" THEN <<[n |-> "discriminator", t |-> T.d]>> \o T.cs ELSE Ms(T)
    IN  IF e.i >= Len(ms) THEN Refused(S) ELSE Gives(S, DescMember(ms[e.i + 1]))

Exec(S, e) ==
    CASE e.op = "struct" ->
            Done(SetType(S, e.s, [k |-> "struct", n |-> e.n, p |-> IF e.f = 0 THEN <<>> ELSE <<S.ts[e.f]>>, ms |-> <<>>]))
      [] e.op = "member" -> ExecMember(S, e)
      [] e.op = "union" ->
            IF ~DiscOk(Src(S, e.src)) THEN Refused(S)
            ELSE Done(SetType(S, e.s, [k |-> "union", n |-> e.n, d |-> Src(S, e.src), cs |-> <<>>]))
      [] e.op = "case" -> ExecCase(S, e)
      [] e.op = "enum" -> Done(SetType(S, e.s, [k |-> "enum", n |-> e.n, w |-> e.w, es |-> <<>>]))
      [] e.op = "enumerator" -> ExecEnumerator(S, e)
      [] e.op = "alias" -> Done(SetType(S, e.s, [k |-> "alias", n |-> e.n, e |-> Src(S, e.src)]))
      [] e.op \in {"array", "seq"} -> Done(SetType(S, e.s, [k |-> e.op, b |-> e.b, e |-> Src(S, e.src)]))
      [] e.op = "arrays" -> IF e.bs = <<>> THEN Refused(S) ELSE Done(SetType(S, e.s, ArrayOf(Src(S, e.src), e.bs)))
      [] e.op = "map" ->
            Done(SetType(S, e.s, [k |-> "map", b |-> e.b, e |-> [k |-> "pair", a |-> Src(S, e.src), c |-> Src(S, e.to)]]))
      [] e.op = "pair" -> Done(SetType(S, e.s, [k |-> "pair", a |-> Src(S, e.src), c |-> Src(S, e.to)]))
      [] e.op = "rename" -> Done(SetType(S, e.s, Renamed(S.ts[e.s], e.n)))
      \* another component of a pair; its name was made from those it had
      [] e.op = "setpair" ->
            LET T == [nm |-> NameOf(S.ts[e.s])] @@ S.ts[e.s]
            IN  Done(SetType(S, e.s, IF e.i = 0 THEN [T EXCEPT !.a = Src(S, e.src)] ELSE [T EXCEPT !.c = Src(S, e.src)]))
      \* pointers that hold types: each its own
      [] e.op = "hold" -> Done([S EXCEPT !.hs[e.h] = Src(S, e.src)])
      [] e.op \in {"hcopy", "hassign"} -> Done([S EXCEPT !.hs[e.h] = S.hs[e.g]])
      [] e.op = "hmove" -> Done([S EXCEPT !.hs = [@ EXCEPT ![e.h] = S.hs[e.g], ![e.g] = IF e.g = e.h THEN @ ELSE NoType]])
      [] e.op = "hfree" -> Gives([S EXCEPT !.hs[e.h] = NoType], Desc(S.hs[e.h]))
      [] e.op = "hname" -> IF S.hs[e.h] = NoType THEN Refused(S) ELSE Done([S EXCEPT !.hs[e.h] = Renamed(@, e.n)])
      [] e.op = "huse" -> IF S.hs[e.h] = NoType THEN Refused(S)
                          ELSE Done(SetType(S, e.s, [k |-> "alias", n |-> e.n, e |-> S.hs[e.h]]))
      [] e.op = "copy" -> Done(SetType(S, e.s, S.ts[e.f]))
      [] e.op = "move" -> Done(SetType(SetType(S, e.f, NoType), e.s, S.ts[e.f]))
      [] e.op = "del" -> Done(SetType(S, e.s, NoType))
      [] e.op = "data" -> Done([S EXCEPT !.ds[e.d] = <<[t |-> Src(S, e.src), v |-> Default(Src(S, e.src))]>>])
      [] e.op = "ddel" -> Done([S EXCEPT !.ds[e.d] = <<>>])
      [] e.op = "find" -> ExecFind(S, e)
      [] e.op = "at" -> ExecAt(S, e)
      [] e.op = "enumat" ->
            LET T == S.ts[e.s]
                s == { i \in 1..Len(T.es) : T.es[i].v = e.v }
            IN  Gives(S, IF s = {} THEN <<0, "">> ELSE <<1, T.es[CHOOSE i \in s : TRUE].n>>)
      [] e.op = "labels" ->
            LET T == S.ts[e.s]
                m == CaseNamed(T, e.n)
            IN  Gives(S, <<IF m = 0 THEN <<>> ELSE LabelsOf(T, m), Flag(m # 0 /\ DefaultCase(T) = m), DefaultName(T),
                           TLCEval([i \in 1..Len(T.cs) |-> T.cs[i].n])>>)
      [] e.op = "parent" -> IF S.ts[e.s].p = <<>> THEN Refused(S) ELSE Gives(S, <<1, Desc(S.ts[e.s].p[1])>>)
      [] e.op = "same" -> Gives(S, <<Flag(Equals(S.ts[e.s], Src(S, e.src)))>>)
=============================================================================
