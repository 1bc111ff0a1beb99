----------------------------- MODULE XGenTrace ------------------------------
(* Is every recorded text of the library one that XGen allows for its tree of modules?                                 *)
EXTENDS XGen, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.XLOG)
VARIABLE l
Init == l = 2
Next ==
    /\ l <= Len(Log)
    /\ l' = l + 1
    /\ LET e == Log[l] IN
       IF e.op # "gen" THEN TRUE
       ELSE LET x == Wrong(e) IN
            IF x = <<>> THEN TRUE
            ELSE PrintT(<<"MISMATCH", l, e.op>>) /\ PrintT(<<"SPECIFIED", x>>)
Spec == Init /\ [][Next]_l
Report == PrintT(<<"TRACE-END", TLCGet("stats").diameter, Len(Log)>>)
=============================================================================
