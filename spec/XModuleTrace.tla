---------------------------- MODULE XModuleTrace ----------------------------
(* Is a recorded run of the library a behaviour of XModule?                                                           *)
EXTENDS XModule, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.XLOG)
LogTypes == Log[1].ts
LogIdents == Log[1].names

VARIABLES l, S
vars == <<l, S>>

Text1(x) == ToString(x)
StateOk(S1, st) ==
    /\ Len(S1) = Len(st)
    /\ \A i \in 1..Len(S1) : Text1(ModuleDesc(S1, i)) = Text1(st[i])
AnswerOk(o, e) ==
    IF e.op # "all" THEN Text1(o.r) = Text1(e.r)
    ELSE /\ Len(e.r) = Cardinality(DOMAIN o.r)
         /\ LET seen == { Text1(e.r[i]) : i \in 1..Len(e.r) }
            IN  \A n \in DOMAIN o.r : Text1(<<n, Desc(o.r[n])>>) \in seen
Agrees(o, e) == o.ok = e.ok /\ (o.ok => AnswerOk(o, e)) /\ StateOk(o.S, e.st)

RECURSIVE NextEpisode(_)
NextEpisode(i) == IF i > Len(Log) \/ Log[i].op \in {"begin", "eof"} THEN i ELSE NextEpisode(i + 1)
Mismatch(outs) ==
    /\ PrintT(<<"MISMATCH", l, Log[l].op>>)
    /\ PrintT(<<"SPECIFIED", { [ok |-> o.ok, r |-> o.r, v |-> TLCEval([i \in 1..Len(o.S) |-> ModuleDesc(o.S, i)])] : o \in outs }>>)
    /\ S' = Tree0
    /\ l' = NextEpisode(l + 1)
Init == l = 2 /\ S = Tree0
Next ==
    /\ l <= Len(Log)
    /\ LET e == Log[l] IN
       CASE e.op \in {"begin", "eof", "end"} -> S' = Tree0 /\ l' = l + 1
         [] OTHER ->
            IF e.bad = 1 THEN Mismatch({})
            ELSE LET outs == MExec(S, e)
                     good == { o \in outs : Agrees(o, e) }
                 IN  IF good = {} THEN Mismatch(outs) ELSE S' = (CHOOSE o \in good : TRUE).S /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Report == PrintT(<<"TRACE-END", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
