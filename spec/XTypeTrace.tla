----------------------------- MODULE XTypeTrace -----------------------------
(* Is a recorded run of the library a behaviour of XTypeBuild?  Every line of the log is one command with what the     *)
(* library answered and the description of every type and data afterwards.                                             *)
EXTENDS XTypeBuild, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.XLOG)
LogTypes == Log[1].ts

VARIABLES l, S
vars == <<l, S>>

Text1(x) == ToString(x)                 \* texts are compared because a wrong answer may have any shape
TypesOk(S1, st) ==
    /\ \A i \in 1..NSlots : Text1(Desc(S1.ts[i])) = Text1(st[1][i])
    /\ \A i \in 1..NHeld : Text1(Desc(S1.hs[i])) = Text1(st[3][i])
DataOk(S1, st) ==
    \A i \in 1..NData :
        IF S1.ds[i] = <<>> THEN st[2][i] = <<>>
        ELSE LET d == S1.ds[i][1] IN
             /\ Text1(Desc(U(d.t))) = Text1(st[2][i][1])
             /\ Same(d.t, d.v, st[2][i][2])
             /\ WellFormed(d.t, st[2][i][2])
Agrees(o, e) == o.ok = e.ok /\ (o.ok => Text1(o.r) = Text1(e.r)) /\ TypesOk(o.S, e.st) /\ DataOk(o.S, e.st)

RECURSIVE NextEpisode(_)
NextEpisode(i) == IF i > Len(Log) \/ Log[i].op \in {"begin", "eof"} THEN i ELSE NextEpisode(i + 1)
Mismatch(outs) ==
    /\ PrintT(<<"MISMATCH", l, Log[l].op>>)
    /\ PrintT(<<"SPECIFIED", { [ok |-> o.ok, r |-> o.r, v |-> TLCEval([i \in 1..NSlots |-> Desc(o.S.ts[i])]),
                                h |-> TLCEval([i \in 1..NHeld |-> Desc(o.S.hs[i])]),
                                d |-> TLCEval([i \in 1..NData |-> IF o.S.ds[i] = <<>> THEN <<>> ELSE <<o.S.ds[i][1].v>>])] : o \in outs }>>)
    /\ S' = Empty
    /\ l' = NextEpisode(l + 1)
Init == l = 2 /\ S = Empty
Next ==
    /\ l <= Len(Log)
    /\ LET e == Log[l] IN
       CASE e.op \in {"begin", "eof", "end"} -> S' = Empty /\ l' = l + 1
         [] OTHER ->
            IF e.bad = 1 THEN Mismatch({})
            ELSE LET outs == Exec(S, e)
                     good == { o \in outs : Agrees(o, e) }
                 IN  IF good = {} THEN Mismatch(outs) ELSE S' = (CHOOSE o \in good : TRUE).S /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Report == PrintT(<<"TRACE-END", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
