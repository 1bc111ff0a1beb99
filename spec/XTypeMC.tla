-------------------------------- MODULE XTypeMC --------------------------------
(* Bounded instances of XTypeBuild, explored by TLC: some slots for types under declaration and some data, all the      *)
(* commands of the instance in every reachable state.  The laws below are said without Exec.  Each transition is        *)
(* written to a file: tools/tour.py walks all of them with the real library.                                            *)
EXTENDS XTypeBuild, Json, IOUtils, CSV, TLCExt

Inst == JsonDeserialize(IOEnv.XMC)
MCTypes == Inst.ts
Cmds == Inst.cmds

VARIABLE S
Init == S = Empty
Key(S1) == <<TLCFP(S1), TLCFP(<<S1, S1>>)>>                     \* (a fingerprint has 32 bits)

RECURSIVE Size(_)
Sum(f(_), n) == FoldSet(LAMBDA i, a : a + f(i), 0, 1..n)
Size(T) ==
    CASE T.k = "enum" -> 1 + Len(T.es)
      [] T.k \in {"alias", "array", "seq"} -> 1 + Size(T.e)
      [] T.k = "map" -> 1 + Size(T.e.a) + Size(T.e.c)
      [] T.k = "pair" -> 1 + Size(T.a) + Size(T.c)
      [] T.k = "struct" -> LET z(i) == Size(T.ms[i].t) IN 1 + Sum(z, Len(T.ms)) + (IF T.p = <<>> THEN 0 ELSE Size(T.p[1]))
      [] T.k = "union" -> LET z(i) == Size(T.cs[i].t) IN 1 + Sum(z, Len(T.cs))
      [] OTHER -> 1
\* need: <<slot, kinds it may hold>>
Ready(c) == \A x \in Range(c.need) : S.ts[x[1]].k \in Range(x[2])

Observers == {"find", "at", "enumat", "labels", "parent", "same"}
Increasing(es) == \A i \in 1..(Len(es) - 1) : Lt(es[i].v, es[i + 1].v, FALSE)
Distinct(ns) == Cardinality(Range(ns)) = Len(ns)
RECURSIVE Sound(_)
Sound(T) ==
    CASE T.k = "struct" -> /\ Distinct([i \in 1..Len(Ms(T)) |-> Ms(T)[i].n])
                           /\ \A i \in 1..Len(Ms(T)) : Sound(Ms(T)[i].t)
                           /\ T.p # <<>> => Sound(T.p[1]) /\ SubSeq(Ms(T), 1, Len(Ms(T.p[1]))) = Ms(T.p[1])
      [] T.k = "union" -> /\ Distinct([i \in 1..Len(T.cs) |-> T.cs[i].n])
                          /\ \A i \in 1..Len(T.cs) : T.cs[i].n # "discriminator" /\ (T.cs[i].ls # <<>> \/ T.cs[i].df) /\ Sound(T.cs[i].t)
                          /\ \A i, j \in 1..Len(T.cs) : i < j => Range(T.cs[i].ls) \cap Range(T.cs[j].ls) = {} /\ ~(T.cs[i].df /\ T.cs[j].df)
                          /\ LET d == U(T.d) IN d.k = "enum" =>
                                \A i \in 1..Len(T.cs) : \A l \in Range(T.cs[i].ls) : \E j \in 1..Len(d.es) : d.es[j].v = l
      [] T.k = "enum" -> Distinct([i \in 1..Len(T.es) |-> T.es[i].n]) /\ Increasing(T.es)
      [] T.k \in {"alias", "array", "seq"} -> Sound(T.e)
      [] T.k = "map" -> Sound(T.e.a) /\ Sound(T.e.c)
      [] T.k = "pair" -> Sound(T.a) /\ Sound(T.c)
      [] OTHER -> TRUE
Mentions(e) == (IF "s" \in DOMAIN e THEN {e.s} ELSE {}) \cup (IF e.op = "move" THEN {e.f} ELSE {})
Holds(e) == (IF "h" \in DOMAIN e THEN {e.h} ELSE {}) \cup (IF e.op = "hmove" THEN {e.g} ELSE {})
Good(e, o) ==
    /\ ~o.ok \/ e.op \in Observers => o.S = S
    \* only the type that is named changes: not the ones it was given to, nor the data made from it
    /\ \A i \in 1..NSlots : i \notin Mentions(e) => o.S.ts[i] = S.ts[i]
    /\ \A i \in 1..NHeld : i \notin Holds(e) => o.S.hs[i] = S.hs[i]
    /\ \A i \in 1..NData : (e.op \in {"data", "ddel"} /\ e.d = i) \/ o.S.ds[i] = S.ds[i]
    /\ e.op = "member" /\ o.ok =>
        LET a == Ms(S.ts[e.s])  b == Ms(o.S.ts[e.s]) IN Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a /\ b[Len(b)].n = e.n
    /\ e.op = "case" /\ o.ok =>
        LET a == S.ts[e.s].cs  b == o.S.ts[e.s].cs IN Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a /\ b[Len(b)].n = e.n
    /\ e.op = "enumerator" /\ o.ok =>
        LET a == S.ts[e.s].es  b == o.S.ts[e.s].es IN Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a /\ (e.v = <<>> \/ b[Len(b)].v = e.v)

Next ==
    \E i \in 1..Len(Cmds) :
        LET e == Cmds[i].e IN
        /\ Ready(Cmds[i]) = TRUE
        /\ \E o \in Exec(S, e) :
            /\ (\A j \in 1..NSlots : Size(o.S.ts[j]) <= Inst.cap) = TRUE
            /\ (\A j \in 1..NHeld : Size(o.S.hs[j]) <= Inst.cap) = TRUE
            /\ Assert(Good(e, o), <<"a law fails", e, S, o>>)
            /\ CSVWrite("%1$s", <<ToJson(<<i, Key(S), Key(o.S)>>)>>, IOEnv.XEDGES)
            /\ S' = o.S
Spec == Init /\ [][Next]_S

Soundness == \A i \in 1..NSlots : Sound(S.ts[i])
\* looking up by name, by position and the list agree
Lookup ==
    \A s \in 1..NSlots : S.ts[s].k \in {"struct", "union"} =>
        LET T == S.ts[s]
            ms == IF T.k = "struct" THEN Ms(T) ELSE T.cs
            off == IF T.k = "struct" THEN 0 ELSE 1
        IN  \A i \in 1..Len(ms) :
              /\ ExecAt(S, [s |-> s, i |-> i - 1 + off]) = Gives(S, DescMember(ms[i]))
              /\ ExecFind(S, [s |-> s, n |-> ms[i].n]) = Gives(S, <<1, DescMember(ms[i])>>)
=============================================================================
