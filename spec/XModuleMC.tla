------------------------------- MODULE XModuleMC -------------------------------
(* Bounded instances of XModule, explored by TLC: up to Inst.mods modules, declarations and queries over a few names.   *)
(* All reachable trees are visited, every command is tried in every module of each; the laws below are said without     *)
(* MExec.  Each transition is written to a file: tools/tour.py walks all of them with the real library.                 *)
EXTENDS XModule, Json, IOUtils, CSV, TLCExt

Inst == JsonDeserialize(IOEnv.XMC)
MCTypes == Inst.ts
MCIdents == Inst.names
Cmds == Inst.cmds

VARIABLE S
Init == S = Tree0
Key(S1) == <<Len(S1), TLCFP(S1), TLCFP(<<S1, S1>>)>>            \* (a fingerprint has 32 bits)

Observers == {"ask", "get", "all", "each"}
Decls == {"structs", "unions", "aliases", "enums", "consts"}
Count(S1) == LET n(i, k) == Cardinality(DOMAIN S1[i][k])
                 one(i) == n(i, "structs") + n(i, "unions") + n(i, "aliases") + n(i, "enums") + n(i, "consts")
             IN  FoldSet(LAMBDA i, a : a + one(i), 0, 1..Len(S1))
Good(e, o) ==
    /\ ~o.ok => o.S = S
    /\ e.op \in Observers => o.S = S
    \* other modules stay as they are; modules are never lost, and there's one more at most
    /\ e.op # "grow" => \A i \in 1..Len(S) : i # e.m => o.S[i] = S[i]
    /\ Len(o.S) - Len(S) \in (IF e.op = "sub" THEN {0, 1} ELSE {0})
    \* a declaration adds one name, unless it's refused (nothing changes) or replaces
    /\ e.op \in {"type", "later", "alias", "const"} =>
        CASE o.r[1] = 0 -> o.S = S
          [] OTHER -> /\ Count(o.S) = Count(S) + 1 \/ (Count(o.S) = Count(S) /\ e.rep = 1)
                      /\ Has(o.S, e.m, e.n)
    /\ e.op \in {"type", "later", "alias", "const"} /\ e.rep = 0 => \A k \in Decls : \A n \in DOMAIN S[e.m][k] : o.S[e.m][k][n] = S[e.m][k][n]

Next ==
    \E i \in 1..Len(Cmds) :
        LET e == Cmds[i].e IN
        /\ e.m <= Len(S)
        /\ \E o \in MExec(S, e) :
            /\ Len(o.S) <= Inst.mods
            /\ (\A m \in 1..Len(o.S) : \A n \in DOMAIN o.S[m].structs : Len(o.S[m].structs[n].ms) <= Inst.cap) = TRUE
            /\ Assert(Good(e, o), <<"a law fails", e, S, o>>)
            /\ CSVWrite("%1$s", <<ToJson(<<i, Key(S), Key(o.S)>>)>>, IOEnv.XEDGES)
            /\ S' = o.S
Spec == Init /\ [][Next]_S

-----------------------------------------------------------------------------
(* Laws of every state, from the paths of the modules                                                                  *)
RECURSIVE PathOf(_)
PathOf(i) == IF i = 1 THEN <<>> ELSE Append(PathOf(S[i].outer), S[i].name)
Above(i) == { j \in 1..Len(S) : LET p == PathOf(j) q == PathOf(i) IN Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p }
Tree ==
    /\ \A i \in 2..Len(S) : S[i].outer \in 1..(i - 1) /\ S[S[i].outer].subs[S[i].name] = i
    /\ \A i, j \in 1..Len(S) : i # j => PathOf(i) # PathOf(j)
    /\ \A i \in 1..Len(S) : \A n \in DOMAIN S[i].subs : S[S[i].subs[n]].outer = i
    /\ \A i \in 1..Len(S) : S[i].fe \subseteq DOMAIN S[i].consts
\* every declared type carries the path of its module
Scopes == \A i \in 1..Len(S) : \A k \in Decls \ {"consts"} : \A n \in DOMAIN S[i][k] :
            S[i][k][n].n = (IF i = 1 THEN n ELSE FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o "::" \o x, "", PathOf(i)) \o "::" \o n)
\* a plain name: the nearest module above that has it; with the full path, from anywhere: exactly that one
Names1 == Range(Idents)
Resolution ==
    \A i \in 1..Len(S) : \A n \in Names1 :
        /\ LET have == { j \in Above(i) : Has(S, j, n) }
               best == { j \in have : \A x \in have : Len(PathOf(x)) <= Len(PathOf(j)) }
           IN  /\ Resolve(S, i, <<0, n>>) = (IF best = {} THEN 0 ELSE CHOOSE j \in best : TRUE)
               /\ SymbolCount(S, i, n) = Cardinality(have)
        /\ \A j \in 1..Len(S) : Resolve(S, j, <<1>> \o Append(PathOf(i), n)) = (IF Has(S, i, n) THEN i ELSE 0)
        \* one name before: its module is a submodule of one above
        /\ \A m \in Names1 : LET r == Resolve(S, i, <<0, m, n>>) IN
             r # 0 => r # 1 /\ S[r].name = m /\ S[r].outer \in Above(i) /\ Has(S, r, n)
                      /\ \A j \in Above(i) : Len(PathOf(j)) > Len(PathOf(S[r].outer)) => m \notin DOMAIN S[j].subs
\* all of the tree is enumerated once, outer modules first; and every type under its full name
Enumeration ==
    LET p == Preorder(S, 1) IN
    /\ Len(p) = Len(S) /\ Range(p) = 1..Len(S)
    /\ \A a, b \in 1..Len(p) : p[a] = S[p[b]].outer => a < b
    /\ LET all == Collect(S, p, TRUE) IN
       DOMAIN all = { Scoped(S, x[1], x[2]) : x \in { y \in (1..Len(S)) \X Names1 :
                            \E k \in Decls \ {"consts"} : y[2] \in DOMAIN S[y[1]][k] } }
=============================================================================
