------------------------------- MODULE XDataMC -------------------------------
(* Bounded instances of XData, explored by TLC: some slots, the types each may hold, a finite set of commands (every   *)
(* path, every operation, a few values for each leaf), and no more than `cap` elements in a collection.  All reachable *)
(* states are visited and all commands are tried in each of them; every step has to obey the laws below, which are     *)
(* said without Exec.  Each transition is written to a file: tools/tour.py walks all of them with the real library.    *)
EXTENDS XData, Json, IOUtils, CSV

Inst == JsonDeserialize(IOEnv.XMC)
MCTypes == Inst.ts
Cmds == Inst.cmds
K == Inst.k

VARIABLE S
Init == S = Empty

\* need[i]: the type that the slot i has to hold, 0 if it doesn't matter, -1 if any, even with its value moved out.
\* is: slots whose value has to be a given one
\* Where the instance lists the values to begin with (dom), others are only results: just the commands that say so
\* (back) go on from there.
Ready(c) ==
    /\ Inst.dom = <<>> \/ c.back = 1 \/ \A i \in 1..K : S[i].v # <<>> => S[i].v[1] \in Range(Inst.dom)
    /\ \A i \in 1..K : \/ c.need[i] = 0
                       \/ c.need[i] > 0 /\ Live(S, i) /\ S[i].t = Types[c.need[i]]
                       \/ c.need[i] = -1 /\ S[i].t # NoData
    /\ \A x \in Range(c.is) : S[x[1]].v = <<x[2]>>

RECURSIVE Small(_, _)
Small(T, v) ==
    LET t == U(T) IN
    CASE t.k \in Strs -> Len(v) <= Inst.cap
      [] t.k \in {"seq", "map", "array"} -> (t.k = "array" \/ Len(v) <= Inst.cap) /\ \A i \in 1..Len(v) : Small(t.e, v[i])
      [] t.k = "pair" -> Small(t.a, v[1]) /\ Small(t.c, v[2])
      [] t.k = "struct" -> \A i \in 1..Len(v) : Small(Ms(t)[i].t, v[i])
      [] t.k = "union" -> v[2] = 0 \/ Small(t.cs[v[2]].t, v[3])
      [] OTHER -> TRUE

\* The values that a value with open discriminators may be: any label of the selected case.  That of a case without
\* labels, or of no case, stays open.
\* The order of a map isn't said: a fixed one is taken.
RECURSIVE Listed(_)
Listed(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o Listed(s \ {x})
RECURSIVE Closed(_, _), ClosedAll(_, _)
ClosedAll(ts, vs) ==
    IF vs = <<>> THEN {<<>>} ELSE { <<a>> \o r : a \in Closed(ts[1], vs[1]), r \in ClosedAll(Tail(ts), Tail(vs)) }
Closed(T, v) ==
    LET t == U(T) IN
    CASE t.k \in {"array", "seq"} -> ClosedAll([i \in 1..Len(v) |-> t.e], v)
      [] t.k = "map" -> { Listed(Range(x)) : x \in ClosedAll([i \in 1..Len(v) |-> t.e], v) }
      [] t.k = "pair" -> ClosedAll(<<t.a, t.c>>, v)
      [] t.k = "struct" -> ClosedAll([i \in 1..Len(v) |-> Ms(t)[i].t], v)
      [] t.k = "union" ->
            IF v[2] = 0 THEN {v}
            ELSE { <<d, v[2], x>> : d \in (IF v[1] = ANY /\ ~LabelLess(t, v[2]) THEN Labels(t, v[2]) ELSE {v[1]}),
                                    x \in Closed(t.cs[v[2]].t, v[3]) }
      [] OTHER -> {v}
RECURSIVE ClosedSlots(_, _)
ClosedSlots(S1, i) ==
    IF i > K THEN {S1}
    ELSE IF S1[i].v = <<>> THEN ClosedSlots(S1, i + 1)
    ELSE UNION { ClosedSlots([S1 EXCEPT ![i].v = <<x>>], i + 1) : x \in Closed(S1[i].t, S1[i].v[1]) }

Key(S1) == [i \in 1..K |-> IF S1[i].t = NoData THEN <<>> ELSE IF S1[i].v = <<>> THEN <<"moved">> ELSE <<NameOf(U(S1[i].t)), S1[i].v[1]>>]

-----------------------------------------------------------------------------
(* Laws of every step                                                                                                 *)
Mentions(e) == {e.s} \cup (IF "f" \in DOMAIN e THEN {e.f} ELSE {})
Observers == {"get", "cast", "caststr", "size", "bounds", "cur", "touch", "getmember", "eq", "selfeq", "rehash", "iter", "items", "vec",
              "foreach", "print", "haskey", "unop", "binop"}
Stepping == {"preinc", "postinc", "predec", "postdec"}
Good(e, o, S1, pure) ==
    \* what isn't mentioned doesn't change
    /\ \A i \in 1..K : i \notin Mentions(e) => S1[i] = S[i]
    \* every value keeps the invariants of its type
    /\ \A i \in Mentions(e) : S1[i].v # <<>> => WellFormed(S1[i].t, S1[i].v[1])
    \* what is refused, or only looks, changes nothing
    /\ pure /\ ~o.ok /\ e.op # "foreachset" => S1 = S            \* (a visitor may throw after it has written)
    /\ pure /\ e.op \in Observers /\ ~(e.op = "unop" /\ e.o \in Stepping) => S1 = S
    \* the type of a data never changes, unless it's made anew
    /\ \A i \in 1..K : S1[i].t = S[i].t \/ e.op \in {"new", "build", "copy", "move", "copyref", "conv", "del"}
    \* what was written is read back
    /\ e.op = "set" /\ o.ok =>
        \A b \in Exec(S1, [op |-> "get", s |-> e.s, p |-> e.p, k |-> e.k, ro |-> 1]) :
            b.ok /\ (b.r = e.v \/ (e.k \in Strs /\ Len(b.r) < Len(e.v) /\ b.r = SubSeq(e.v, 1, Len(b.r))))
    \* copies are equal, and the source is the one it was
    /\ e.op = "copy" => o.ok /\ S1[e.s].t = S[e.f].t /\ Eq(S[e.f].t, S1[e.s].v[1], S[e.f].v[1]) /\ (e.s # e.f => S1[e.f] = S[e.f])
    /\ e.op = "assign" /\ o.ok => Eq(S[e.s].t, S1[e.s].v[1], S[e.f].v[1]) /\ (e.s # e.f => S1[e.f] = S[e.f])
    /\ e.op = "move" => o.ok /\ S1[e.s].v = S[e.f].v /\ (e.s # e.f => S1[e.f].v = <<>>)
    \* collections grow at their end, by what was given
    /\ e.op = "push" /\ o.ok /\ e.p = <<>> =>
        LET a == S[e.s].v[1]  b == S1[e.s].v[1] IN Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a
    /\ e.op = "resize" /\ o.ok /\ e.p = <<>> =>
        LET a == S[e.s].v[1]  b == S1[e.s].v[1] IN Len(b) = Max2(e.n, Len(a)) /\ SubSeq(b, 1, Len(a)) = a
    /\ e.op = "insertpair" /\ o.ok /\ e.p = <<>> =>
        LET a == S[e.s].v[1]  b == S1[e.s].v[1] IN Range(a) \subseteq Range(b) /\ Len(b) = Len(a) + o.r[1]

Next ==
    \E i \in 1..Len(Cmds) :
        /\ Ready(Cmds[i]) = TRUE
        /\ Assert(Exec(S, Cmds[i].e) # {}, <<"no outcome", Cmds[i].e, S>>)
        /\ \E o \in Exec(S, Cmds[i].e) : \E S1 \in ClosedSlots(o.S, 1) :
            /\ (\A j \in 1..K : S1[j].v = <<>> \/ Small(S1[j].t, S1[j].v[1])) = TRUE
            /\ Assert(Good(Cmds[i].e, o, S1, Cmds[i].pure = 1), <<"a law fails", Cmds[i].e, Key(S), Key(S1), o.r>>)
            /\ CSVWrite("%1$s", <<ToJson(<<i, Key(S), Key(S1)>>)>>, IOEnv.XEDGES)
            /\ S' = S1
Spec == Init /\ [][Next]_S

-----------------------------------------------------------------------------
(* Laws of every state                                                                                                *)
Held == { i \in 1..K : Live(S, i) }
Equality ==
    \A i, j \in Held : S[i].t = S[j].t =>
        LET T == S[i].t  a == S[i].v[1]  b == S[j].v[1] IN
        /\ Eq(T, a, b) = Eq(T, b, a)
        /\ i = j => Eq(T, a, b)
        /\ \A k \in Held : S[k].t = T /\ Eq(T, a, b) /\ Eq(T, b, S[k].v[1]) => Eq(T, a, S[k].v[1])
\* Does the type have parts of these kinds?
RECURSIVE Has(_, _)
Has(T, ks) ==
    LET t == U(T) IN
    \/ t.k \in ks
    \/ CASE t.k \in {"array", "seq", "map"} -> Has(t.e, ks)
         [] t.k = "pair" -> Has(t.a, ks) \/ Has(t.c, ks)
         [] t.k = "struct" -> \E i \in 1..Len(Ms(t)) : Has(Ms(t)[i].t, ks)
         [] t.k = "union" -> Has(t.d, ks) \/ \E i \in 1..Len(t.cs) : Has(t.cs[i].t, ks)
         [] OTHER -> FALSE
\* (a number out of the range of its new type is left open)
RECURSIVE Defined(_, _)
Defined(T, v) ==
    LET t == U(T) IN
    CASE t.k \in {"array", "seq", "map"} -> \A i \in 1..Len(v) : Defined(t.e, v[i])
      [] t.k = "pair" -> Defined(t.a, v[1]) /\ Defined(t.c, v[2])
      [] t.k = "struct" -> \A i \in 1..Len(v) : Defined(Ms(t)[i].t, v[i])
      [] t.k = "union" -> v[2] = 0 \/ Defined(t.cs[v[2]].t, v[3])
      [] OTHER -> v # ANY
Conversion ==
    \A i \in Held : \A n \in 1..Len(Types) :
        LET T == S[i].t  R == Types[n]  v == S[i].v[1]  c == Conv(R, T, v) IN
        Convertible(R, T) /\ c # <<>> /\ Defined(R, c[1]) =>
            /\ \A x \in Closed(R, c[1]) : WellFormed(R, x) \/ (PrintT(<<"converted badly", T, R, v, x>>) /\ FALSE)
            \* without differences nothing is lost (only width and sign of numbers count)
            /\ Equals(R, T) /\ ~Has(T, Floats \cup {"bool"}) /\ ~Has(R, Floats \cup {"bool"}) => \A x \in Closed(R, c[1]) : LET d == Conv(T, R, x) IN d # <<>> /\ Same(T, d[1], v)
Traversing ==
    \A i \in Held :
        LET all == Visits(S[i].t, S[i].v[1]).vs IN
        /\ \A n \in 2..Len(all) : all[n].deep \in 1..(all[n - 1].deep + 1)
        /\ all # <<>> => all[1].deep = 0
\* (an enumeration takes any integer of its width, not the other way round)
TypeLaws ==
    \A a, b \in 1..Len(Types) :
        \/ /\ Equals(Types[a], Types[a])
           /\ Compat(Types[a], Types[b]) = {} /\ ~Has(Types[a], {"enum"}) /\ ~Has(Types[b], {"enum"}) => Compat(Types[b], Types[a]) = {}
           /\ \A d \in Compat(Types[a], Types[b]) : d = "NONE" => Compat(Types[a], Types[b]) = NONE
        \/ PrintT(<<"a law of types fails", Types[a], Types[b], Compat(Types[a], Types[b]), Compat(Types[b], Types[a])>>) /\ FALSE
ASSUME TypeLaws
=============================================================================
